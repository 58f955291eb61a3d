// C11: the number of key comparisons and the time of lookups in vector_set (spec/VectorCostTrace.tla).
//   vector_cost SEED N OUT      random histories
//   vector_cost history "k k.." replays one history (negative: erase) and prints the excess over the bound
#include "vk.h"
#include "Awl/VectorSet.h"
#include <chrono>
#include <algorithm>
#include <set>
#include <cmath>

namespace
{
    long calls = 0;
    struct Counting { using is_transparent = void; bool operator()(int a, int b) const { ++calls; return a < b; } };
    using Set = awl::vector_set<int, Counting>;

    // The greatest number of comparisons of any lookup of keys lo..hi (all functions that look up a key).
    long maxFind(Set& s, const std::vector<int>& ks)
    {
        long m = 0;
        const Set& c = s;
        for (int k : ks)
        {
            vk::progress();
            auto count = [&](auto f) { calls = 0; f(); m = std::max(m, calls); };
            count([&] { s.find(k); }); count([&] { c.find2(k); }); count([&] { c.contains(k); });
            count([&] { c.lower_bound(k); }); count([&] { c.upper_bound(k); });
            count([&] { try { (void)c.index_of(k); } catch (const std::out_of_range&) {} });
        }
        return m;
    }

    int key(int pattern, int i, int n, vk::Rng& g)
    {
        switch (pattern)
        {
        case 0: return 1 + i;
        case 1: return n - i;
        case 2: return i % 2 ? n - i / 2 : 1 + i / 2;              // outside in
        case 3: { int h = n / 2; return i % 2 ? std::max(1, h - i / 2) : std::min(n, h + 1 + i / 2); } // inside out
        case 4: return 1 + (int)((long long)i * 7919 % n);
        default: return 1 + vk::rnd(g, n);
        }
    }

    long rb(long n) { long l = 0; while ((1L << l) < n + 1) ++l; return 4 * l; }
}

int main(int argc, char** argv)
{
    vk::install();
    if (argc > 2 && !strcmp(argv[1], "history"))
    {
        // k: insert k, -k: erase k; prints the greatest excess of a lookup over the red-black bound
        Set s; long worst = -1000, wn = 0; std::set<int> all;
        std::stringstream in(argv[2]); std::vector<int> h; for (int k; in >> k;) { h.push_back(k); all.insert(std::abs(k)); }
        std::vector<int> ks; for (int k : all) { ks.push_back(k); ks.push_back(k + 1); } ks.push_back(-1);
        for (int k : h)
        {
            if (k > 0) s.insert(k); else s.erase(-k);
            long m = maxFind(s, ks) - rb(s.size());
            if (m > worst) { worst = m; wn = s.size(); }
        }
        printf("OK excess=%ld elements=%ld\n", worst, wn);
        return 0;
    }
    if (argc < 4) return 2;
    vk::Rng g(strtoul(argv[1], 0, 10));
    long n = atol(argv[2]);
    int NK = getenv("VK_PARAMS") ? atoi(getenv("VK_PARAMS")) : 60;
    std::ofstream o(argv[3]);
    long done = 0, traces = 0;
    auto ev = [&](const char* name, long a, long b, long c)
    {
        o << "{\"o\":[\"" << name << "\"," << a << "," << b << "," << c << "],\"r\":\"[]\"}\n";
    };
    while (done < n)
    {
        vk::last_ops.clear();
        o << "{\"o\":[\"reset\"],\"r\":\"[]\"}\n";
        ++traces;
        Set s;
        int N = 2 + vk::rnd(g, NK - 1), pat = vk::rnd(g, 7), del = vk::rnd(g, 6);
        std::vector<int> ks; for (int k = 0; k <= N + 1; ++k) ks.push_back(k);
        auto ins = [&](int k)
        {
            vk::note("insert " + std::to_string(k));
            calls = 0; s.insert(k); long c = calls; ev("insert", k, c, maxFind(s, ks)); ++done;
        };
        auto ers = [&](int k, bool byIt)
        {
            vk::note("erase " + std::to_string(k));
            auto i = s.find(k);
            calls = 0;
            if (byIt && i != s.end()) s.erase(i); else s.erase(k);
            long c = calls; ev("erase", k, c, maxFind(s, ks)); ++done;
        };
        for (int i = 0; i < N; ++i) ins(key(pat, i, N, g));
        if (del == 0) continue;
        int rounds = 1 + vk::rnd(g, 3);
        for (int r = 0; r < rounds; ++r)
        {
            int d = vk::rnd(g, (int)s.size() + 1);
            for (int i = 0; i < d && !s.empty(); ++i)
            {
                int p = del == 1 ? 0 : del == 2 ? (int)s.size() - 1 : vk::rnd(g, (int)s.size());
                ers(del == 5 && vk::rnd(g, 4) == 0 ? 1 + vk::rnd(g, N) : s[p], vk::rnd(g, 2));
                if (del == 4 && vk::rnd(g, 2)) ins(1 + vk::rnd(g, N));
            }
            for (int i = vk::rnd(g, N); i > 0; --i) ins(key(vk::rnd(g, 7), vk::rnd(g, N), N, g));
        }
    }
    // big sets, insertions only
    o << "{\"o\":[\"reset\"],\"r\":\"[]\"}\n";
    int B = getenv("VK_BULK") ? atoi(getenv("VK_BULK")) : 20000;
    for (int pat = 0; pat < 6; ++pat)
    {
        vk::note("bulk pattern " + std::to_string(pat));
        Set s; long mi = 0, last = 0;
        for (int i = 0; i < B; ++i)
        {
            vk::progress(); calls = 0; s.insert(key(pat, i, B, g)); mi = std::max(mi, calls);
            if ((long)s.size() >= 2 * last + 1 || i == B - 1)
            {
                last = s.size();
                std::vector<int> ks; for (int k = 0; k < 200; ++k) ks.push_back(s[vk::rnd(g, (int)s.size())]);
                for (int k = 0; k < 40; ++k) { ks.push_back(s[std::min<size_t>(k, s.size() - 1)]); ks.push_back(s[s.size() - 1 - std::min<size_t>(k, s.size() - 1)]); }
                ks.push_back(-1); ks.push_back(1 << 30);
                ev("bulk", last, mi, maxFind(s, ks));
            }
        }
    }
    // access by position and position of an iterator: the time must not grow with the size
    {
        vk::note("position");
        Set s; const int P = 300000;
        for (int i = 1; i <= P; ++i) s.insert(i);
        auto fast = [&](auto f)
        {
            double best = 1e9;
            for (int rep = 0; rep < 5; ++rep)
            {
                auto t0 = std::chrono::steady_clock::now();
                int m = 0;
                for (; m < 50; ++m) f(vk::rnd(g, P));
                best = std::min(best, std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t0).count() / m);
            }
            return best < 150 ? 1 : 0;
        };
        volatile long sink = 0;
        std::vector<Set::iterator> its; for (auto i = s.begin(); i != s.end(); ++i) its.push_back(i);
        int a = fast([&](int i) { sink += s[i]; sink += *s.find_by_index(i); sink += s.at(i); });
        int b = fast([&](int i) { sink += s.index_of(its[i]); sink += s.index_of(i + 1); sink += std::get<1>(s.find2(i + 1)); });
        ev("position", P, a, b);
    }
    o.flush();
    printf("OK traces=%ld events=%ld\n", traces, done);
    return 0;
}
