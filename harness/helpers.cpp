// C55: stop watches, times and numeric helpers against spec/Helpers.tla.
#include "vk.h"
#include "Awl/StopWatch.h"
#include "Awl/Time.h"
#include "Awl/Math.h"
#include "Awl/IntRange.h"
#include "Awl/RangeUtil.h"
#include "Awl/Combinator.h"
#include "Awl/OptionalMutex.h"
#include "Awl/Random.h"
#include <list>
#include <set>
#include <mutex>
#include <thread>
#include <cmath>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
using vk::Val; using vk::Rng; using namespace std::chrono;
static bool g_virtual = false; static nanoseconds g_now{};
static nanoseconds base() { return hours(1000); }
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    if (g_virtual && (id == CLOCK_MONOTONIC)) { const auto n = (base() + g_now).count(); *t = { time_t(n / 1000000000), long(n % 1000000000) }; return 0; }
    return (int)syscall(SYS_clock_gettime, id, t);
}
namespace
{
    Val codes(const std::string& s) { Val v; for (unsigned char c : s) v.push((int)c); return v; }
    nanoseconds span(const Val& v) { return seconds(v.n(0)) + nanoseconds(v.n(1)); }
    Val show(nanoseconds d) { auto s = floor<seconds>(d); return Val::t((int)s.count(), (int)(d - s).count()); }
    struct Mutex { int n = 0; void lock() { ++n; } void unlock() { --n; } };
    template <class T> int clamp(int v, int lo, int hi)
    {
        T a = T(v), b = T(v), c = T(v); awl::math::clamp(a, T(lo), T(hi)); awl::math::clamp(b, T(lo), T(hi), std::less<T>()); awl::math::clamp(c, T(hi), T(lo), std::greater<T>());
        return lo > hi ? (v < lo ? lo : hi) : a == b && a == c ? (int)a : 77777;
    }
    template <class T> Val elements(auto r) { Val v; for (T x : r) v.push((int)x); Val w; for (T x : r) w.push((int)x); if (v.str() != w.str() || r.size() != v.size()) return Val("enumerated differently"); return v; }
    template <class D> std::string shown(D d, bool wide = false)
    {
        std::ostringstream a, b; awl::format_duration(a, d); awl::format_duration(b, d, 5);
        if (b.str() != a.str() || awl::duration_to_string<char>(d) != a.str()) return "printed differently"; return a.str();
    }
    struct Sut : vk::Sut
    {
        awl::StopWatch w{ steady_clock::time_point(base()) }; Mutex m;
        Sut() { g_now = {}; }
        Val apply(const Val& o) override { g_virtual = true; Val v = run(o); g_virtual = false; return v; }
        Val run(const Val& o)
        {
            const std::string& op = o.name();
            if (op == "advance") { g_now += span(o[1]); return 0; }
            if (op == "restart") { const int k = int(g_now.count() % 2); if (k) w.Reset(); else w = awl::StopWatch(); return 0; }
            if (op == "since") { w = awl::StopWatch(steady_clock::now() - span(o[1])); return show(w.GetElapsedTime()); }
            if (op == "elapsed")
            {
                const auto& k = w; const steady_clock::duration d = k;
                if (d != k.GetElapsedTime() || k.GetElapsedCast<nanoseconds>() != d || (k.GetElapsedCount<long long, std::nano>() != d.count())) return Val("measured differently");
                if (std::abs(k.GetElapsedSeconds<double>() - duration<double>(d).count()) > 1e-9 || std::abs(k.GetElapsedSeconds<float>() - duration<float>(d).count()) > 1e-3f * (1 + std::abs(duration<float>(d).count()))) return Val("seconds");
                return show(d);
            }
            if (op == "counts") return Val::t((int)w.GetElapsedCount<long, std::milli>(), (int)w.GetElapsedCount<int, std::ratio<1>>(), w.GetElapsedCast<duration<int, std::ratio<60>>>().count(), (int)w.GetElapsedCast<hours>().count(),
                (int)(w.GetElapsedCount<long long, std::micro>() - 1000000 * w.GetElapsedCount<long long, std::ratio<1>>()));
            if (op == "has")
            {
                const auto d = span(o[1]); const bool b = w.HasElapsed(d); const auto us = floor<microseconds>(d);
                if (us == d && w.HasElapsed(us) != b) return Val("another unit"); const auto s = floor<seconds>(d); if (s == d && (w.HasElapsed(s) != b || w.HasElapsed(duration<double>(s)) != b)) return Val("another unit");
                return int(b);
            }
            if (op == "watch") { std::ostringstream out; using namespace awl; out << w; return codes(out.str()); }
            if (op == "shown") { const auto d = span(o[2]); return codes(shown(o.n(1) ? -d : d)); }
            if (op == "seconds") return codes(shown(seconds(o.n(1))));
            if (op == "time")
            {
                const Val& f = o[1]; const int z = o.n(2); setenv("TZ", ("AAA" + std::to_string(-z)).c_str(), 1); tzset();
                const auto t = awl::make_time<system_clock>(f.n(0), f.n(1), f.n(2), f.n(3), f.n(4), f.n(5));
                const auto u = awl::make_time<system_clock>(f.n(0), f.n(1), f.n(2), f.n(3), f.n(4), f.n(5), nanoseconds(123456789)), v = awl::make_time<system_clock>(f.n(0), f.n(1), f.n(2), f.n(3), f.n(4), f.n(5), nanoseconds(-1));
                const auto x = awl::make_time<system_clock, seconds>(f.n(0), f.n(1), f.n(2), f.n(3), f.n(4), f.n(5));
                if (u - t != nanoseconds(123456789) || t - v != nanoseconds(1) || x != t) return Val("the fractions differ");
                const auto s = duration_cast<seconds>(t.time_since_epoch()); if (s != t.time_since_epoch()) return Val("a fraction");
                const auto d = floor<days>(s); return Val::t((int)d.count(), (int)(s - d).count());
            }
            if (op == "clamp")
            {
                const int v = o.n(1), lo = o.n(2), hi = o.n(3); const int a = clamp<int>(v, lo, hi);
                if (clamp<double>(v, lo, hi) != a || clamp<long long>(v, lo, hi) != a) return Val("another type"); return a;
            }
            if (op == "sign") { const int v = o.n(1), a = awl::math::sign(v); if (awl::math::sign((long long)v * 5000000000ll) != a || awl::math::sign(v / 1e300) != a || awl::math::sign((float)v) != a) return Val("another type"); return a; }
            if (op == "range") { Val a = elements<int>(awl::make_int_range(o.n(1), o.n(2))); Val b = elements<long long>(awl::make_int_range<long long>(o.n(1), o.n(2))); return a.str() == b.str() ? a : Val("another type"); }
            if (op == "count") { Val a = elements<int>(awl::make_count(o.n(1))); Val b = elements<size_t>(awl::make_count(size_t(o.n(1)))); return a.str() == b.str() ? a : Val("another type"); }
            if (op == "moved")
            {
                std::vector<int> v; std::list<int> l; std::list<int> g; for (auto& x : o[1].a) v.push_back((int)x.i), l.push_back((int)x.i), g.push_back(-(int)x.i);
                const int i = o.n(2) - 1; const bool a = awl::position_changed(v, std::less<>(), v.begin() + i), b = awl::position_changed(l, std::less<>(), std::next(l.begin(), i)), c = awl::position_changed(g, std::greater<>(), std::next(g.begin(), i));
                return a == b && a == c ? Val(int(a)) : Val("another container");
            }
            if (op == "round") { const int a = awl::math::round<int>(o.n(1) / 8.0); if (awl::math::round<long long>(o.n(1) / 8.0f) != a || (a >= 0 && awl::math::round<unsigned>(o.n(1) / 8.0L) != (unsigned)a) || awl::math::round<int>(std::nextafter(0.5, 0.0)) != 0 || awl::math::round<int>(std::nextafterf(-0.5f, 0.0f)) != 0) return Val("another type"); return a; }
            if (op == "angle")
            {
                const double a = o.n(1), r = awl::math::degrees_to_radians(45.0 * a); const double pi = std::acos(-1.0);
                if (std::abs(r - a * pi / 4) > 1e-12 || std::abs(awl::math::pi<double>() - pi) > 1e-15 || std::abs(awl::math::half_pi<double>() - pi / 2) > 1e-15 || std::abs(awl::math::quarter_pi<double>() - pi / 4) > 1e-15 || std::abs(awl::math::pi<float>() - (float)pi) > 1e-6f) return Val("not radians");
                return (int)std::lround(awl::math::raidans_to_degrees(r) / 45 * 1000000) % 1000000 ? Val("not degrees") : Val((int)std::lround(awl::math::raidans_to_degrees(r) / 45));
            }
            if (op == "recurse")
            {
                auto fib = awl::y_combinator<int, int>([](auto self, int n) -> int { return n < 2 ? n : self(n - 1) + self(n - 2); });
                auto gcd = awl::y_combinator<int, int, int>([](auto self, int a, int b) -> int { return b == 0 ? a : self(int(b), a % b); });
                return Val::t(fib(o.n(1)), gcd(o.n(2), o.n(3)));
            }
            awl::OptionalMutex<Mutex> none(nullptr), some(&m); awl::MutexWrapper<Mutex> wrapped(m); awl::IMutex& i = wrapped; awl::OptionalMutex<awl::IMutex> both(&i); awl::fake_mutex fake;
            const int k = o.n(1); const bool odd = m.n != 0 || k == 2;
            if (op == "lock") { switch (k) { case 0: none.lock(); break; case 1: some.lock(); break; case 2: i.lock(); break; default: fake.lock(); } if (m.n == 0) { { std::lock_guard<awl::OptionalMutex<awl::IMutex>> g(both); if (m.n != 1) return Val("a guard"); } { std::lock_guard<awl::OptionalMutex<Mutex>> g(none); if (m.n) return Val("a guard"); } } return m.n; }
            switch (k) { case 0: none.unlock(); break; case 1: some.unlock(); break; case 2: both.unlock(); break; default: fake.unlock(); } return m.n;
        }
        Val random_op(Rng& r) override
        {
            auto sp = [&](int lim) { return Val::t(vk::rnd(r, lim), vk::rnd(r, 3) ? vk::rnd(r, 1000000000) : 0); };
            switch (vk::rnd(r, 18))
            {
            case 0: case 1: return g_now < hours(200) ? Val::t("advance", sp(vk::rnd(r, 4) ? 10 : 20000)) : Val::t("restart");
            case 2: return Val::t("restart");
            case 3: return Val::t("since", sp(5000));
            case 4: return Val::t("elapsed");
            case 5: return Val::t("counts");
            case 6: { const auto e = duration_cast<nanoseconds>(base() + g_now - start().time_since_epoch()); if (vk::rnd(r, 2)) { auto d = e + nanoseconds(vk::rnd(r, 3) - 1); if (d >= nanoseconds(0)) return Val::t("has", show(d)); } return Val::t("has", sp(vk::rnd(r, 2) ? 20 : 50000)); }
            case 7: return Val::t("watch");
            case 8: { Val d = sp(300000); return Val::t("shown", d.n(0) || d.n(1) ? vk::rnd(r, 2) : 0, d); }
            case 9: return Val::t("seconds", vk::rnd(r, 700000) - 350000);
            case 10: return Val::t("time", Val::t(1971 + vk::rnd(r, 150), vk::rnd(r, 12), 1 + vk::rnd(r, 31), vk::rnd(r, 24), vk::rnd(r, 60), vk::rnd(r, 60)), vk::rnd(r, 24) - 12);
            case 11: { const int lo = vk::rnd(r, 200) - 100; return Val::t("clamp", vk::rnd(r, 300) - 150, lo, lo + vk::rnd(r, 50)); }
            case 12: return Val::t("sign", vk::rnd(r, 100000) - 50000);
            case 13: { const int b = vk::rnd(r, 2000) - 1000; return vk::rnd(r, 3) ? Val::t("range", b, b + vk::rnd(r, 20)) : Val::t("count", vk::rnd(r, 30)); }
            case 14: { std::set<int> s; for (int n = 1 + vk::rnd(r, 8); n > 0; --n) s.insert(vk::rnd(r, 50)); Val v; for (int x : s) v.push(x); const int i = vk::rnd(r, (int)v.size()); if (vk::rnd(r, 2)) v.a[i] = vk::rnd(r, 50); return Val::t("moved", v, i + 1); }
            case 15: return vk::rnd(r, 2) ? Val::t("round", vk::rnd(r, 200000) - 100000) : Val::t("angle", vk::rnd(r, 2000) - 1000);
            case 16: return Val::t("recurse", vk::rnd(r, 15), vk::rnd(r, 10000), vk::rnd(r, 10000));
            default: { const int k = vk::rnd(r, 4); return k == 0 || k == 3 ? Val::t(vk::rnd(r, 2) ? "lock" : "unlock", k) : Val::t(m.n ? "unlock" : "lock", k); }
            }
        }
        steady_clock::time_point start() { g_virtual = true; auto t = steady_clock::now() - w.GetElapsedTime(); g_virtual = false; return t; }
    };
}
int main(int argc, char** argv)
{
    return vk::main<Sut>(argc, argv);
}
