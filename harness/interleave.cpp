// See interleave.h. Compiled without instrumentation.
#undef _FORTIFY_SOURCE
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/time.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <new>
#include <functional>
#include "interleave.h"
#undef _mm_pause
namespace sched
{
    enum { MAXT = 10 };
    enum State { READY, MUTEX, COND, JOIN, FUTEX, SLEEP, IDLE, ENDED };
    using Clock = uint32_t;
    struct VC { Clock c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
    struct T
    {
        int id = 0; sem_t sem; pthread_t real; State state = READY; const void* obj = nullptr; long deadline = -1; bool woken = false, timedout = false;
        void* (*fn)(void*) = nullptr; void* arg = nullptr; void* result = nullptr; VC vc; bool detached = false, joined = false; const void* mutex_after = nullptr;
    };
    static thread_local T* me = nullptr;
    static thread_local int quiet = 0;
    static bool active = false;             // a run is in progress
    static std::vector<T*> threads;
    static int current = 0;
    static long vt = 0;                     // virtual nanoseconds
    static const long BASE = 1000000000L * 1000000;
    struct Mutex { int owner = -1; int count = 0; };
    // the tables of the run; everything below is touched only by the thread that has the baton
    static std::unordered_map<const void*, Mutex> mutexes;
    static std::unordered_map<const void*, VC> sync_vc;
    static std::vector<std::string> history;
    static long steps = 0;
    static bool capped = false;
    static long live_blocks = 0;
    struct Cell { uintptr_t key; uint32_t epoch; uint16_t mask; uint8_t freed; int8_t wt[8]; Clock wc[8]; bool wa[8]; Clock rc[8][MAXT]; };
    enum { CELLS = 1 << 14 };
    static std::vector<Cell*> touched;
    static Cell* cells = nullptr; static uint32_t epoch = 0;
    static std::unordered_set<const void*> hot; static bool hot_frozen = false; static long hot_added = 0;
    static std::vector<std::pair<void*, size_t>> quarantine;
    static std::unordered_map<void*, size_t> sizes;
    std::vector<int> params;

    // ---- strategy ----
    static uint64_t rng_state = 1, prog_state = 1;
    static uint64_t next(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
    enum Mode { RANDOM, DFS };
    static Mode mode; static double p_switch, p_time, p_spur;
    struct Choice { uint16_t taken, count; };
    static std::vector<Choice> path; static size_t depth = 0; static int budget = 0;
    static std::string decisions;
    static bool time_adversary = false, spurious = false, cas_fails = false;
    static double real01() { return (next(rng_state) >> 11) * (1.0 / 9007199254740992.0); }
    static int pick(int n)                  // a choice without a default
    {
        if (n <= 1) return 0;
        if (mode == RANDOM || capped) return int((next(rng_state) >> 20) % n);
        if (depth < path.size()) { if (path[depth].count != n) { fprintf(stderr, "the scenario is not deterministic: %d and %d choices\n", path[depth].count, n); _exit(2); } return path[depth++].taken; }
        path.push_back({ 0, (uint16_t)n }); ++depth; return 0;
    }

    // ---- reporting ----
    static const char* scenario_name = ""; static uint64_t run_program = 0, run_schedule = 0;
    [[noreturn]] static void die(const std::string& what)
    {
        ++quiet;
        printf("FAILED %s: program %llu schedule %llu %s\n", what.c_str(), (unsigned long long)run_program, (unsigned long long)run_schedule, mode == DFS ? "systematic" : "random");
        for (auto& h : history) printf("  %s\n", h.c_str());
        for (T* t : threads) printf("  thread %d state %d object %p\n", t->id, t->state, t->obj);
        fflush(stdout);
        _exit(70);
    }
    void fail(const std::string& what) { die(what); }
    void check(bool ok, const char* what) { if (!ok) die(what); }
    Quiet::Quiet() { ++quiet; }
    Quiet::~Quiet() { --quiet; }
    static bool managed() { return active && me && !quiet; }
    static thread_local int internal = 0;    // the tables allocate and free too
    struct In { In() { ++quiet; ++internal; } ~In() { --internal; --quiet; } };

    // ---- switching ----
    static bool mutex_free(const void* m, int id) { auto i = mutexes.find(m); return i == mutexes.end() || i->second.owner == -1 || i->second.owner == id; }
    static bool runnable(T* t)
    {
        switch (t->state)
        {
        case READY: return true;
        case MUTEX: return mutex_free(t->obj, t->id);
        case COND: case FUTEX: return t->woken || t->timedout;
        case SLEEP: return t->timedout;
        case JOIN: return ((T*)t->obj)->state == ENDED;
        default: return false;
        }
    }
    static void expire() { for (T* t : threads) if (t->deadline >= 0 && t->deadline <= vt && (t->state == COND || t->state == FUTEX || t->state == SLEEP) && !t->woken) t->timedout = true; }
    static bool advance()
    {
        long d = -1;
        for (T* t : threads) if (t->deadline > vt && (t->state == COND || t->state == FUTEX || t->state == SLEEP) && !t->woken && !t->timedout) if (d < 0 || t->deadline < d) d = t->deadline;
        if (d < 0) return false;
        vt = d; expire(); return true;
    }
    static void hand_over(int to)
    {
        T* self = me; current = to;
        if (to == self->id) return;
        sem_post(&threads[to]->sem);
        if (self->state == ENDED) return;
        while (sem_wait(&self->sem) != 0) {}
    }
    static void runnables(std::vector<int>& r, int except = -1) { r.clear(); for (T* t : threads) if (t->id != except && runnable(t)) r.push_back(t->id); }
    static std::vector<int> rs;
    // the running thread cannot go on, or does not want to
    static void reschedule(bool must_leave)
    {
        for (;;)
        {
            runnables(rs, must_leave ? me->id : -1);
            if (!rs.empty()) break;
            T* w = nullptr;
            for (T* t : threads) if (t->state == IDLE) { t->state = READY; w = t; break; }
            if (w == me) return;
            if (w || advance()) continue;
            if (must_leave && me->state == READY) return;
            die("deadlock");
        }
        int k = rs[pick((int)rs.size())];
        hand_over(k);
    }
    static void count_step()
    {
        if (++steps == 20000) { capped = true; p_switch = 0.5; }
        if (steps > 400000) die("the threads make no progress");
    }
    static void point(bool sync)
    {
        count_step();
        if (time_adversary && !capped && mode == RANDOM && real01() < p_time) advance();
        runnables(rs, me->id);
        if (rs.empty()) return;
        if (mode == RANDOM || capped) { if (real01() < (sync ? std::min(0.9, p_switch * 4) : p_switch)) hand_over(rs[(next(rng_state) >> 20) % rs.size()]); }
        else if (budget > 0) { int k = pick((int)rs.size() + 1); if (k > 0) { --budget; runnables(rs, me->id); hand_over(rs[k - 1]); } }
    }
    static void block() { reschedule(false); me->state = READY; me->deadline = -1; }
    static void tick() { ++me->vc.c[me->id]; }

    // ---- memory ----
    static Cell* cell(uintptr_t key, bool make)
    {
        size_t h = (key * 0x9E3779B97F4A7C15ull) >> 50;
        for (size_t i = 0; i < CELLS; ++i)
        {
            Cell& c = cells[(h + i) & (CELLS - 1)];
            if (c.epoch != epoch)
            {
                if (!make) return nullptr;
                memset(&c, 0, sizeof c); c.key = key; c.epoch = epoch; memset(c.wt, -1, sizeof c.wt); touched.push_back(&c); return &c;
            }
            if (c.key == key) return &c;
        }
        die("too much memory is used");
    }
    static void forget(uintptr_t a, size_t n)      // a block begins a new life
    {
        for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) if (Cell* c = cell(g, false))
        { c->mask = 0; c->freed = 0; memset(c->wt, -1, sizeof c->wt); memset(c->rc, 0, sizeof c->rc); }
        for (uintptr_t x = a; x < a + n; ++x) { sync_vc.erase((void*)x); }
    }
    static std::string where(const void* pc) { Dl_info i; char b[64]; void* base = dladdr(pc, &i) ? i.dli_fbase : 0; snprintf(b, sizeof b, " at +0x%lx", (long)((char*)pc - (char*)base)); return b; }
    static void access(const void* a, size_t n, bool write, bool atomic, const void* pc)
    {
        int id = me->id;
        for (size_t k = 0; k < n; ++k)
        {
            uintptr_t x = (uintptr_t)a + k; Cell* c = cell(x >> 3, true); int b = x & 7;
            if (c->freed) die("freed memory is accessed" + where(pc));
            c->mask |= 1 << id;
            if (c->wt[b] >= 0 && c->wt[b] != id && !(atomic && c->wa[b]) && c->wc[b] > me->vc.c[c->wt[b]]) die(std::string("data race: ") + (write ? "write" : "read") + " of what another thread wrote" + where(pc));
            if (write)
            {
                for (int t = 0; t < MAXT; ++t) if (t != id && c->rc[b][t] && !(atomic && (c->rc[b][t] & 1)) && (c->rc[b][t] >> 1) > me->vc.c[t])
                    die("data race: write of what another thread reads" + where(pc));
                c->wt[b] = (int8_t)id; c->wc[b] = me->vc.c[id]; c->wa[b] = atomic;
            }
            else { Clock v = (me->vc.c[id] << 1) | (atomic ? 1 : 0); if (!atomic || (c->rc[b][id] >> 1) != me->vc.c[id]) c->rc[b][id] = v; }
        }
    }
    static bool shared(const void* a, size_t n, const void* pc)
    {
        bool s = false;
        for (uintptr_t g = (uintptr_t)a >> 3; g <= ((uintptr_t)a + n - 1) >> 3; ++g) { Cell* c = cell(g, true); uint16_t m = c->mask | (1 << me->id); if (m & (m - 1)) s = true; }
        if (s && !hot_frozen && hot.insert(pc).second) ++hot_added;
        return s;
    }
    static void mem(const void* a, size_t n, bool write, const void* pc)
    {
        if (!managed()) return;
        In in;
        shared(a, n, pc);
        if (hot.count(pc)) point(false);
        access(a, n, write, false, pc);
    }
    static void released(const void* a, size_t n, const void* pc)
    {
        access(a, n, true, false, pc);
        for (uintptr_t x = (uintptr_t)a & ~7ull; x < (uintptr_t)a + n; x += 8) cell(x >> 3, true)->freed = 1;
    }

    // ---- threads ----
    static void* (*real_dlsym(const char* n))() { return (void* (*)())dlsym(RTLD_NEXT, n); }
    template <class F> static F next_fn(const char* n) { return (F)real_dlsym(n); }
    static void* thread_main(void* p)
    {
        T* t = (T*)p;
        ++quiet;
        while (sem_wait(&t->sem) != 0) {}
        me = t;
        pthread_attr_t at; void* stack; size_t size;
        if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &stack, &size); pthread_attr_destroy(&at);
            // the stack may have belonged to a thread that has ended
            for (Cell* c : touched) { uintptr_t x = c->key << 3; if (x >= (uintptr_t)stack && x < (uintptr_t)stack + size) { c->mask = 0; c->freed = 0; memset(c->wt, -1, sizeof c->wt); memset(c->rc, 0, sizeof c->rc); } }
        }
        --quiet;
        t->result = t->fn(t->arg);
        ++quiet;
        t->state = ENDED; tick();
        // the last word: another thread gets the baton
        for (;;)
        {
            runnables(rs);
            if (!rs.empty()) break;
            bool waiting = false;
            for (T* x : threads) if (x->state == IDLE) { x->state = READY; waiting = true; break; }
            if (!waiting && !advance()) die("deadlock");
        }
        int k = rs[pick((int)rs.size())];
        current = k; void* r = t->result;
        me = nullptr;
        sem_post(&threads[k]->sem);
        return r;
    }
    static T* find(pthread_t p) { for (T* t : threads) if (t->id && pthread_equal(t->real, p) && !t->joined) return t; return nullptr; }

    // ---- public ----
    void event(const std::string& json) { In in; history.push_back("{\"o\":" + json + "}"); }
    int rnd(int n) { In in; return n <= 0 ? 0 : int((next(prog_state) >> 20) % n); }
    int self() { return me ? me->id : -1; }
    long now() { return vt / 1000000; }
    long allocated() { return live_blocks; }
    bool timing() { return time_adversary; }
    void idle() { In in; me->state = IDLE; runnables(rs, me->id); reschedule(true); me->state = READY; }
    void spin() { if (!managed()) return; In in; count_step(); reschedule(true); }

    struct Run { bool ok; };
    static void start_run()
    {
        ++epoch; touched.clear(); mutexes.clear(); sync_vc.clear(); history.clear(); steps = 0; capped = false; depth = 0; vt = 0; live_blocks = 0;
        for (T* t : threads) { sem_destroy(&t->sem); delete t; }
        threads.clear();
        T* t = new T; sem_init(&t->sem, 0, 0); t->real = pthread_self(); threads.push_back(t); me = t; t->vc.c[0] = 1; current = 0;
        active = true;
    }
    static void end_run()
    {
        // detached threads end first
        ++quiet;
        for (;;)
        {
            bool all = true;
            for (T* t : threads) if (t->id && t->state != ENDED) all = false;
            if (all) break;
            me->state = IDLE; reschedule(true); me->state = READY;
            bool stuck = true; for (T* t : threads) if (t->id && t->state != ENDED && (runnable(t) || t->deadline >= 0)) stuck = false;
            all = true; for (T* t : threads) if (t->id && t->state != ENDED) all = false;
            if (stuck && !all) die("threads are left behind");
            if (!all) advance();
        }
        active = false; me = nullptr;
        for (auto& b : quarantine) free(b.first);
        quarantine.clear(); sizes.clear();
        --quiet;
    }
    static bool next_path()
    {
        while (!path.empty() && path.back().taken + 1 >= path.back().count) path.pop_back();
        if (path.empty()) return false;
        ++path.back().taken; return true;
    }
    // a loop without scheduling points that does not end: half a minute of processor time in one step of one run
    static long all_runs = 0;
    static void on_tick(int)
    {
        static long seen = -1; static int same = 0;
        long now = all_runs * 1000003 + steps;
        if (seen != now) { seen = now; same = 0; }
        else if (++same == 5) die("an operation does not end");
    }
    int main(int argc, char** argv, void (*scenario)())
    {
        if (argc < 6) { fprintf(stderr, "SEED PROGRAMS SCHEDULES DFS OUT [PARAMS]\n"); return 2; }
        setvbuf(stdout, nullptr, _IOLBF, 0);
        uint64_t seed = strtoull(argv[1], 0, 10); long programs = atol(argv[2]), schedules = atol(argv[3]), dfs = atol(argv[4]);
        for (int i = 6; i < argc; ++i) params.push_back(atoi(argv[i]));
        alarm(3000);
        struct sigaction sa {}; sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
        struct itimerval it { { 6, 0 }, { 6, 0 } }; setitimer(ITIMER_PROF, &it, nullptr);
        cells = (Cell*)calloc(CELLS, sizeof(Cell));
        FILE* f = fopen(argv[5], "w"); if (!f) return 2;
        std::unordered_set<size_t> seen; long runs = 0, distinct = 0, events = 0, complete = 0, longest = 0;
        int bound = 2; if (const char* e = getenv("VK_PREEMPTIONS")) bound = atoi(e);
        long only = getenv("VK_PROGRAM") ? atol(getenv("VK_PROGRAM")) : -1;
        // the same history is written once
        auto finish = [&]
        {
            end_run(); ++runs; ++all_runs;
            std::string all; for (auto& h : history) { all += h; all += '\n'; }
            longest = std::max(longest, steps);
            if (seen.insert(std::hash<std::string>()(all)).second) { ++distinct; events += history.size(); fputs("{\"o\":[\"reset\"]}\n", f); fputs(all.c_str(), f); }
        };
        for (long p = 0; p < programs; ++p)
        {
            if (only >= 0 && p != only) continue;
            run_program = p;
            auto prog = [&] { prog_state = (seed * 1000003 + p + 1) * 0x9E3779B97F4A7C15ull | 1; for (int i = 0; i < 4; ++i) next(prog_state); };
            hot.clear(); hot_frozen = false;
            for (long s = 0; s < schedules; ++s)
            {
                static const double ps[] = { 0.05, 0.3, 0.1, 0.02, 0.6 };
                mode = RANDOM; run_schedule = s; rng_state = ((seed * 7919 + p) * 104729 + s + 1) * 0xD1B54A32D192ED03ull | 1; for (int i = 0; i < 4; ++i) next(rng_state);
                p_switch = ps[s % 5]; p_time = 0.01; time_adversary = params.size() > 0 && params[0] && s % 2; cas_fails = s % 3 == 0; spurious = s % 7 == 0;
                prog(); start_run(); scenario(); finish();
            }
            if (dfs > 0)
            {
                time_adversary = cas_fails = spurious = false; hot_frozen = true; path.clear(); mode = DFS; bool done = false;
                for (long s = 0; s < dfs && !done; ++s)
                {
                    run_schedule = s; budget = bound; rng_state = 88172645463325252ull + s;
                    prog(); start_run(); scenario();
                    finish(); path.resize(std::min(path.size(), depth)); done = !next_path();
                }
                if (done) ++complete;
                mode = RANDOM;
            }
        }
        fclose(f);
        printf("OK runs=%ld distinct=%ld events=%ld complete=%ld steps=%ld\n", runs, distinct, events, complete, longest);
        return 0;
    }

    // ---- mutexes ----
    static void lock(const void* m, int kind)
    {
        Mutex* x = &mutexes[m];
        if (x->owner == me->id)
        {
            if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x->count; return; }
            die("deadlock: a mutex is locked again by its owner");
        }
        while (x->owner != -1) { me->state = MUTEX; me->obj = m; block(); x = &mutexes[m]; }
        x->owner = me->id; x->count = 1;
        me->vc.join(sync_vc[m]);
    }
    static void unlock(const void* m)
    {
        Mutex& x = mutexes[m];
        if (x.owner != me->id) die("a mutex is unlocked by a thread that does not own it");
        if (--x.count == 0) { x.owner = -1; sync_vc[m].join(me->vc); tick(); }
    }
    static void use(const void* m, size_t n, const void* pc) { Cell* c = cell((uintptr_t)m >> 3, true); (void)n; if (c->freed) die("a synchronization object that was freed is used" + where(pc)); c->mask |= 1 << me->id; }
    static long to_deadline(const timespec* t) { long v = t->tv_sec * 1000000000L + t->tv_nsec - BASE; return v < 0 ? 0 : v; }
    static int cond_wait(const void* c, pthread_mutex_t* m, long deadline)
    {
        point(true);
        Mutex& x = mutexes[m]; int count = x.count;
        if (x.owner != me->id) die("a wait with a mutex that is not locked by the thread");
        x.owner = -1; x.count = 0; sync_vc[m].join(me->vc); tick();
        me->state = COND; me->obj = c; me->woken = me->timedout = false; me->deadline = deadline;
        if (deadline >= 0 && deadline <= vt) me->timedout = true;
        if (spurious && real01() < 0.05) me->woken = true;
        block();
        bool to = me->timedout && !me->woken;
        me->woken = me->timedout = false;
        point(true);
        lock(m, 0); mutexes[m].count = count;
        return to ? ETIMEDOUT : 0;
    }
    static void cond_wake(const void* c, bool all)
    {
        for (;;)
        {
            std::vector<T*> w; for (T* t : threads) if (t->state == COND && t->obj == c && !t->woken && !t->timedout) w.push_back(t);
            if (w.empty()) return;
            w[all ? 0 : pick((int)w.size())]->woken = true;
            if (!all) return;
        }
    }
}
using namespace sched;
#define PC __builtin_return_address(0)
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m) { if (!managed()) { static auto f = next_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } In in; use(m, sizeof *m, PC); point(true); use(m, sizeof *m, PC); sched::lock(m, m->__data.__kind & 3); return 0; }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!managed()) { static auto f = next_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
        In in; use(m, sizeof *m, PC); point(true);
        Mutex& x = mutexes[m];
        if (x.owner != -1 && !(x.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
        sched::lock(m, m->__data.__kind & 3); return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) { if (!managed()) { static auto f = next_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } In in; use(m, sizeof *m, PC); sched::unlock(m); point(true); return 0; }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!managed()) { static auto f = next_fn<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } In in; use(c, 8, PC); return cond_wait(c, m, -1); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!managed()) abort(); In in; use(c, 8, PC); return cond_wait(c, m, to_deadline(t)); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { if (!managed()) abort(); In in; use(c, 8, PC); return cond_wait(c, m, to_deadline(t)); }
    int pthread_cond_signal(pthread_cond_t* c) { if (!managed()) { static auto f = next_fn<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } In in; use(c, 8, PC); point(true); use(c, 8, PC); cond_wake(c, false); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) { if (!managed()) { static auto f = next_fn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } In in; use(c, 8, PC); point(true); use(c, 8, PC); cond_wake(c, true); return 0; }
    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (!managed()) return 0;
        In in; use(c, 8, PC);
        for (T* t : threads) if (t->state == COND && t->obj == c && !t->woken && !t->timedout) die("a condition variable is destroyed while a thread waits for it");
        return 0;
    }
    int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        static auto f = next_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        if (!managed()) return f(p, a, fn, arg);
        In in;
        if (threads.size() >= MAXT) die("too many threads");
        T* t = new T; t->id = (int)threads.size(); sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; t->vc.join(me->vc); t->vc.c[t->id] = 1; tick();
        int r = f(&t->real, a, thread_main, t);
        if (r) { delete t; return r; }
        *p = t->real; threads.push_back(t);
        point(true);
        return 0;
    }
    int pthread_join(pthread_t p, void** r)
    {
        static auto f = next_fn<int (*)(pthread_t, void**)>("pthread_join");
        if (!managed()) return f(p, r);
        In in; T* t = find(p);
        if (!t) die("a thread that does not exist is joined");
        if (t == me) die("a thread joins itself");
        point(true);
        if (t->state != ENDED) { me->state = JOIN; me->obj = t; block(); }
        me->vc.join(t->vc); t->joined = true;
        return f(p, r);
    }
    int pthread_detach(pthread_t p) { static auto f = next_fn<int (*)(pthread_t)>("pthread_detach"); if (managed()) { In in; if (T* t = find(p)) t->detached = t->joined = true; } return f(p); }
    int sched_yield() { if (!managed()) { static auto f = next_fn<int (*)()>("sched_yield"); return f(); } sched::spin(); return 0; }
    int clock_gettime(clockid_t c, timespec* t)
    {
        if (!active || !me) { static auto f = next_fn<int (*)(clockid_t, timespec*)>("clock_gettime"); return f(c, t); }
        t->tv_sec = (BASE + vt) / 1000000000; t->tv_nsec = (BASE + vt) % 1000000000; return 0;
    }
    static int nap(long until)
    {
        In in; point(true);
        if (until <= vt) return 0;
        me->state = SLEEP; me->timedout = me->woken = false; me->deadline = until; block(); me->timedout = false; return 0;
    }
    int nanosleep(const timespec* t, timespec*) { if (!managed()) { static auto f = next_fn<int (*)(const timespec*, timespec*)>("nanosleep"); return f(t, nullptr); } return nap(vt + t->tv_sec * 1000000000 + t->tv_nsec); }
    int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* r) { if (!managed()) abort(); return nap(flags ? to_deadline(t) : vt + t->tv_sec * 1000000000 + t->tv_nsec); }
    static long raw(long n, long a, long b, long c, long d, long e, long f)
    {
        long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    long syscall(long n, ...)
    {
        va_list l; va_start(l, n); long a[6]; for (long& x : a) x = va_arg(l, long); va_end(l);
        if (n == SYS_futex && managed())
        {
            In in; int op = (int)a[1] & FUTEX_CMD_MASK; int* addr = (int*)a[0];
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                point(true);
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
                const timespec* t = (const timespec*)a[3];
                me->state = FUTEX; me->obj = addr; me->woken = me->timedout = false; me->deadline = !t ? -1 : op == FUTEX_WAIT_BITSET ? to_deadline(t) : vt + t->tv_sec * 1000000000 + t->tv_nsec;
                block(); bool to = me->timedout && !me->woken; me->woken = me->timedout = false;
                if (to) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                point(true); long k = 0;
                for (T* t : threads) if (k < (unsigned)a[2] && t->state == FUTEX && t->obj == addr && !t->woken && !t->timedout) { t->woken = true; ++k; }
                return k;
            }
        }
        long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
        return r;
    }

    // ---- what the compiler inserts ----
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { sched::mem(a, n, false, PC); } void __tsan_write##n(void* a) { sched::mem(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { sched::mem(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { sched::mem(a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { sched::mem(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { sched::mem(a, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, size_t n) { if (n) sched::mem(a, n, false, PC); }
    void __tsan_write_range(void* a, size_t n) { if (n) sched::mem(a, n, true, PC); }
    void __tsan_vptr_update(void** a, void*) { sched::mem(a, 8, true, PC); }
    void __tsan_vptr_read(void** a) { sched::mem(a, 8, false, PC); }
}
namespace sched
{
    static bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
    static bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
    static void before(const void* a, size_t n, bool write, const void* pc) { shared(a, n, pc); point(true); access(a, n, write, true, pc); }
    static void loaded(const void* a, int o) { if (acq(o)) { auto i = sync_vc.find(a); if (i != sync_vc.end()) me->vc.join(i->second); } }
    static void stored(const void* a, int o) { if (rel(o)) { sync_vc[a] = me->vc; tick(); } else sync_vc.erase(a); }
    static void modified(const void* a, int o) { if (acq(o)) { auto i = sync_vc.find(a); if (i != sync_vc.end()) me->vc.join(i->second); } if (rel(o)) { sync_vc[a].join(me->vc); tick(); } }
    static bool fails() { return cas_fails && !capped && real01() < 0.1; }
}
#define AT(n, W) \
    W __tsan_atomic##n##_load(const volatile W* a, int o) { if (!managed()) return __atomic_load_n(a, 5); In in; before((void*)a, sizeof(W), false, PC); W v = __atomic_load_n(a, 5); loaded((void*)a, o); return v; } \
    void __tsan_atomic##n##_store(volatile W* a, W v, int o) { if (!managed()) return __atomic_store_n(a, v, 5); In in; before((void*)a, sizeof(W), true, PC); __atomic_store_n(a, v, 5); stored((void*)a, o); } \
    RMW(n, W, exchange, __atomic_exchange_n) RMW(n, W, fetch_add, __atomic_fetch_add) RMW(n, W, fetch_sub, __atomic_fetch_sub) RMW(n, W, fetch_and, __atomic_fetch_and) RMW(n, W, fetch_or, __atomic_fetch_or) RMW(n, W, fetch_xor, __atomic_fetch_xor) \
    static int cas##n(volatile W* a, W* e, W v, bool weak, int o, int fo, const void* pc) { if (!managed()) return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); In in; before((void*)a, sizeof(W), true, pc); \
        if (weak && fails()) { *e = __atomic_load_n(a, 5); loaded((void*)a, fo); return 0; } \
        int r = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); if (r) modified((void*)a, o); else loaded((void*)a, fo); return r; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile W* a, W* e, W v, int o, int fo) { return cas##n(a, e, v, false, o, fo, PC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile W* a, W* e, W v, int o, int fo) { return cas##n(a, e, v, true, o, fo, PC); } \
    W __tsan_atomic##n##_compare_exchange_val(volatile W* a, W e, W v, int o, int fo) { cas##n(a, &e, v, false, o, fo, PC); return e; }
#define RMW(n, W, name, f) W __tsan_atomic##n##_##name(volatile W* a, W v, int o) { if (!managed()) return f(a, v, 5); In in; before((void*)a, sizeof(W), true, PC); W r = f(a, v, 5); modified((void*)a, o); return r; }
extern "C"
{
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { if (!managed()) return; In in; static char fence; me->vc.join(sync_vc[&fence]); sync_vc[&fence].join(me->vc); tick(); point(true); }
    void __tsan_atomic_signal_fence(int) {}
}
// ---- allocation ----
static void* take(size_t n, size_t al = 16)
{
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    if (managed()) { In in; forget((uintptr_t)p, n ? n : 1); sizes[p] = n ? n : 1; ++live_blocks; }
    return p;
}
static void give(void* p, const void* pc)
{
    if (!p) return;
    if (managed())
    {
        In in; auto i = sizes.find(p);
        if (i != sizes.end())
        {
            size_t n = i->second;
            if (n == (size_t)-1) die("memory is freed twice" + where(pc));
            --live_blocks; released(p, n, pc); i->second = (size_t)-1;
            memset(p, 0xdd, n);
            quarantine.push_back({ p, n }); return;
        }
    }
    else if (active && me && !internal) { auto i = sizes.find(p); if (i != sizes.end() && i->second != (size_t)-1) { sizes.erase(i); --live_blocks; } }
    free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p, PC); }
void operator delete[](void* p) noexcept { give(p, PC); }
void operator delete(void* p, size_t) noexcept { give(p, PC); }
void operator delete[](void* p, size_t) noexcept { give(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { give(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p, PC); }
