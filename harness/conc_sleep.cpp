// C24: sleep_for under all schedules, against spec/Sleep.tla
#include "interleave.h"
#include "Awl/Sleep.h"
using namespace sched;
namespace
{
    using us = std::chrono::microseconds;
    std::chrono::steady_clock::time_point t0;
    long micros() { return std::chrono::duration_cast<us>(std::chrono::steady_clock::now() - t0).count(); }
    enum { SLEEP, STOP, PAUSE };
    struct Op { int what; long d; int unit; };
    // a name of its own for each unit of time
    void sleep(const Op& o, const std::stop_token& token)
    {
        ev("sleep", self(), o.d, micros());
        switch (o.unit)
        {
        case 0: awl::sleep_for(us(o.d), token); break;
        case 1: awl::sleep_for(std::chrono::nanoseconds(o.d * 1000), token); break;
        case 2: if (o.d % 1000 == 0) { awl::sleep_for(std::chrono::milliseconds(o.d / 1000), token); break; } [[fallthrough]];
        case 3: awl::sleep_for(std::chrono::duration<long, std::ratio<1, 2000000>>(o.d * 2), token); break;
        }
        ev("slept", self(), micros());
    }
    void stop(std::stop_source& s) { ev("stop", micros()); s.request_stop(); ev("stopped", micros()); }
    void scenario()
    {
        std::vector<std::vector<Op>> programs; bool stateless, before; int extra;
        {
            Quiet q;
            static const long ds[] = { 20000, 20000, 50000, 30000, 1500, 1, 0, -5000, 100000 };
            int n = 2 + rnd(2), stops = 0;
            for (int t = 0; t < n; ++t)
            {
                programs.emplace_back();
                for (int k = 1 + (rnd(2) == 0); k > 0; --k)
                {
                    int r = rnd(10);
                    if (t == 0 && k == 1) r = 0;
                    if (r < 5) programs.back().push_back({ SLEEP, ds[rnd(9)], rnd(4) });
                    else if (r < 8) programs.back().push_back({ STOP, 0, 0 }), ++stops;
                    else programs.back().push_back({ PAUSE, ds[rnd(5)], 0 });
                }
            }
            stateless = rnd(8) == 0; before = rnd(8) == 0; extra = rnd(3);
        }
        t0 = std::chrono::steady_clock::now();
        ev("mode", !timing());
        {
            std::stop_source source; std::stop_token token = source.get_token(), none;
            if (before && !stateless) stop(source);
            std::vector<std::thread> threads;
            for (auto& p : programs) threads.emplace_back([&]
            {
                for (auto& o : p) switch (o.what)
                {
                case SLEEP: sleep(o, stateless ? none : token); break;
                case STOP: if (!stateless) stop(source); break;
                case PAUSE: std::this_thread::sleep_for(us(o.d)); break;
                }
            });
            for (int k = 0; k < extra; ++k) { idle(); ev("idle", micros()); std::this_thread::sleep_for(us(k ? 20000 : 7000)); }
            idle(); ev("idle", micros());
            for (auto& t : threads) t.join();
            ev("finished");
        }
        check(allocated() == 0, "memory is left behind");
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
