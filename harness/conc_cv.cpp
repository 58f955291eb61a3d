// C22: the bundled condition variable under all schedules, against spec/CondVar.tla
#include "interleave.h"
#include "condition_variable_any2.hpp"
#include <mutex>
using namespace sched;
namespace
{
    // any lock will do
    struct UserLock
    {
        std::mutex m;
        void lock() { m.lock(); ev("lock", self()); }
        void unlock() { ev("unlock", self()); m.unlock(); }
    };
    struct World { UserLock lock; bool flag[4] = {}; int arrived = 0; std::condition_variable_any2* cv; std::stop_source source; };
    World* w;
    enum { WAIT, WAITT, WAITP, WAITPT, WAITS, WAITST, SET, STOP, NOTIFY };
    struct Op { int what, flag, ms; bool all, inside, until; };
    using ms = std::chrono::milliseconds;
    void wait(const Op& o)
    {
        auto& cv = *w->cv; auto& l = w->lock; int f = o.flag, t = self();
        bool tok = o.what == WAITS || o.what == WAITST, timed = o.what == WAITT || o.what == WAITPT || o.what == WAITST;
        auto pred = [f, t] { check(self() == t, "the predicate runs on another thread"); bool v = w->flag[f]; ev("pred", self(), v); return v; };
        l.lock(); ++w->arrived;
        auto d = std::chrono::steady_clock::now() + ms(o.ms); auto sd = std::chrono::system_clock::now() + ms(o.ms);
        ev("wait", t, o.what == WAIT || o.what == WAITT ? 0 : f, tok, timed ? now() + o.ms : -1);
        bool v = true;
        switch (o.what)
        {
        case WAIT: cv.wait(l); break;
        case WAITT: v = (o.until ? cv.wait_until(l, d) : cv.wait_for(l, ms(o.ms))) == std::cv_status::no_timeout; break;
        case WAITP: cv.wait(l, pred); break;
        case WAITPT: v = o.until ? cv.wait_until(l, d, pred) : cv.wait_for(l, ms(o.ms), pred); break;
        case WAITS: v = cv.wait(l, w->source.get_token(), pred); break;
        case WAITST: v = o.until ? cv.wait_until(l, w->source.get_token(), sd, pred) : cv.wait_for(l, w->source.get_token(), ms(o.ms), pred); break;
        }
        ev("ret", t, v, now());
        l.unlock();
    }
    void notify(bool all) { ev("notify", self(), all); if (all) w->cv->notify_all(); else w->cv->notify_one(); ev("notified", self()); }
    void stop() { ev("stop", self()); bool b = w->source.request_stop(); ev("stopped", self(), b); }
    void perform(const Op& o)
    {
        switch (o.what)
        {
        case SET:
            w->lock.lock(); w->flag[o.flag] = true; ev("set", self(), o.flag);
            if (o.inside) { notify(o.all); w->lock.unlock(); } else { w->lock.unlock(); notify(o.all); }
            break;
        case STOP: stop(); break;
        case NOTIFY: notify(o.all); break;
        default: wait(o);
        }
    }
    void scenario()
    {
        std::vector<std::vector<Op>> programs; bool early;
        {
            Quiet q;
            w = new World();
            int waiters = 1 + rnd(2), others = 1 + rnd(2);
            static const int kinds[] = { WAITS, WAITS, WAITS, WAITST, WAITST, WAITP, WAITPT, WAIT, WAITT };
            for (int t = 0; t < waiters; ++t)
            {
                programs.emplace_back();
                for (int k = 1 + (rnd(4) == 0); k > 0; --k) { int kind = kinds[rnd(9)]; programs.back().push_back({ kind, 1 + rnd(2), 10 + 10 * rnd(3), false, false, rnd(2) == 0 }); }
            }
            for (int t = 0; t < others; ++t)
            {
                programs.emplace_back();
                for (int k = 1 + (rnd(3) == 0); k > 0; --k)
                {
                    int r = rnd(8);
                    programs.back().push_back({ r < 4 ? SET : r < 7 ? STOP : NOTIFY, 1 + rnd(2), 0, rnd(3) > 0, rnd(2) == 0, false });
                }
            }
            // it may be destroyed as soon as all who wait have been notified
            early = false;
            if (rnd(4) == 0) { early = true; programs.resize(waiters); for (auto& p : programs) p.resize(1); }
        }
        w->cv = new std::condition_variable_any2();
        std::vector<std::thread> threads;
        for (auto& p : programs) threads.emplace_back([&p] { for (auto& o : p) perform(o); });
        if (!early || rnd(2)) { idle(); ev("idle", now()); }
        for (int k = rnd(3); k > 0; --k) { std::this_thread::sleep_for(ms(25)); if (!early) { idle(); ev("idle", now()); } }
        while (early)
        {
            w->lock.lock();
            bool all = w->arrived == (int)programs.size();
            if (all) { for (int f = 1; f < 4; ++f) { w->flag[f] = true; ev("set", 0, f); } notify(true); }
            w->lock.unlock();
            if (!all) { idle(); continue; }
            delete w->cv;                       // although the threads have not returned yet
            stop();
            break;
        }
        if (!early)
        {
        // with all flags set and stop requested everybody returns; who waits without a predicate is notified again
        w->lock.lock(); for (int f = 1; f < 4; ++f) { w->flag[f] = true; ev("set", 0, f); } w->lock.unlock();
        notify(true);
        idle(); ev("idle", now());
        stop();
        for (int k = 0; k < 6; ++k) { idle(); ev("idle", now()); notify(true); }
        }
        for (auto& t : threads) t.join();
        threads.clear(); threads.shrink_to_fit();
        ev("finished");
        if (!early) delete w->cv;
        check(allocated() == 0, "internal state is left behind");
        { Quiet q; delete w; }
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
