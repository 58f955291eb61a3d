// C25: watch_dog under all schedules, against spec/WatchDog.tla
#include "interleave.h"
#include "Awl/WatchDog.h"
#include <optional>
using namespace sched;
namespace
{
    using us = std::chrono::microseconds;
    std::chrono::steady_clock::time_point t0;
    long micros() { return std::chrono::duration_cast<us>(std::chrono::steady_clock::now() - t0).count(); }
    void ask(const std::stop_token& t) { ev("ask", self()); bool b = t.stop_requested(); ev("asked", self(), b); }
    void cancel(std::stop_source& s) { ev("cancel"); bool won = s.request_stop(); ev("canceled", won); }
    enum { CANCEL, PAUSE, ASK, WAIT };
    struct Op { int what; long d; };
    void scenario()
    {
        std::vector<std::vector<Op>> programs; bool stateless, before; int looks, slow; long timeout, moment; bool asks;
        {
            Quiet q;
            static const long ds[] = { 20000, 50000, 1, 0, -1000, 20000 }, ps[] = { 0, 0, 20000, 20000, 30000, 60000 };
            timeout = ds[rnd(6)]; slow = rnd(4) == 0 ? 5000 : 0; moment = ps[rnd(6)]; looks = rnd(3); asks = rnd(2);
            for (int t = rnd(3); t > 0; --t)
            {
                programs.emplace_back();
                if (rnd(2)) programs.back().push_back({ PAUSE, ps[rnd(6)] });
                programs.back().push_back({ rnd(4) ? CANCEL : WAIT, 0 });
                if (rnd(2)) programs.back().push_back({ ASK, 0 });
            }
            before = rnd(6) == 0; stateless = !before && rnd(8) == 0;
        }
        t0 = std::chrono::steady_clock::now();
        ev("mode", !timing());
        {
            std::stop_source source; std::optional<std::stop_token> given; std::mutex mutex;
            std::vector<std::thread> threads;
            if (before) cancel(source);
            auto start = [&]
            {
                for (auto& p : programs) threads.emplace_back([&]
                {
                    for (auto& o : p) switch (o.what)
                    {
                    case CANCEL: cancel(source); break;
                    case PAUSE: if (o.d) std::this_thread::sleep_for(us(o.d)); break;
                    default:
                        std::optional<std::stop_token> t; { std::lock_guard<std::mutex> l(mutex); t = given; }
                        if (t) { if (o.what == WAIT) awl::sleep_for(std::chrono::milliseconds(10), *t); ask(*t); }
                    }
                });
            };
            if (!stateless) start();
            bool made = false;
            ev("new", timeout, micros());
            std::string name = "a log function that keeps something of its own, long enough";
            auto* dog = new awl::watch_dog(stateless ? std::stop_token() : source.get_token(), us(timeout), [&made, slow, name]
            {
                ev("log", micros());
                if (slow) std::this_thread::sleep_for(us(slow));
                check(name.size() == 59, "the log function is damaged");
                ev("logged");
            });
            ev("newd");
            { std::lock_guard<std::mutex> l(mutex); given = dog->get_token(); }
            if (asks) ask(*given);
            if (moment) std::this_thread::sleep_for(us(moment));
            for (int k = 0; k < looks; ++k) { idle(); ev("idle", micros()); ask(*given); if (k) std::this_thread::sleep_for(us(25000)); }
            if (asks) ask(*given);
            // somebody looks whether the destructor waits
            bool done = false;
            std::thread killer([&] { ev("del"); delete dog; ev("deld"); });
            idle(); ev("idle", micros());
            for (auto& t : threads) t.join();
            killer.join();
            ask(*given);
            std::this_thread::sleep_for(us(100000));
            idle(); ev("idle", micros());
            ev("finished");
            (void)made; (void)done;
        }
        check(allocated() == 0, "memory is left behind");
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
