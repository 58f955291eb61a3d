// C23: the bundled jthread under all schedules, against spec/JThread.tla
#include "interleave.h"
#include "jthread.hpp"
#include <memory>
#include <optional>
#include <string>
using namespace sched;
namespace
{
    using ms = std::chrono::milliseconds;
    const int H = 3;
    enum { UNTIL_STOPPED, WITH_TOKEN, PLAIN, MEMBER, BOTH, BY_VALUE, KINDS };
    enum { NEW, EMPTY, MOVE, SWAP, STDSWAP, ASSIGN, DEL, JOIN, DETACH, REQ, LOOK, PAUSE };
    struct Op { int what, h, g, fn, kind, ms; };
    bool ask(const std::stop_token& t, int k) { ev("ask", self(), k); bool b = t.stop_requested(); ev("asked", self(), b); return b; }
    // k: the stop state, h: the handle it is requested through
    template <class S> void request(S& s, int k, int h) { ev("req", self(), k, h); bool b = s.request_stop(); ev("reqd", self(), b); }
    struct Data { std::string s = "something that is long enough to be allocated"; int n = 0; };
    std::thread::id ids[32];
    void started(int k, bool token) { ev("start", k, token); ids[k] = std::this_thread::get_id(); }
    void nap(int n) { if (n) std::this_thread::sleep_for(ms(n)); }
    struct Object
    {
        const int magic = 77;
        void f(int k, int n) { check(magic == 77, "another object"); started(k, false); nap(n); ev("end", k); }
    };
    struct Both
    {
        void operator()(int) { fail("the function that takes no token was called"); }
        void operator()(std::stop_token t, int k) { started(k, true); ask(t, k); ev("end", k); }
    };
    struct ByValue
    {
        Data d; std::unique_ptr<int> p;
        void operator()(std::stop_token t, int k) && { started(k, true); check(d.n == 7 && p && *p == 9, "the callable was not forwarded"); ask(t, k); ev("end", k); }
    };
    Object object;
    std::jthread* make(int k, int kind, int n, int& by_ref)
    {
        switch (kind)
        {
        case UNTIL_STOPPED: return new std::jthread([k](std::stop_token t) { started(k, true); check(t.stop_possible(), "the token has no stop state"); while (!ask(t, k)) nap(10); ev("end", k); });
        case WITH_TOKEN: return new std::jthread([k, n](std::stop_token t, std::unique_ptr<int> p, Data d, int& r)
        {
            started(k, true); check(p && *p == 5 && d.n == 3 && d.s.size() == 45, "the arguments were not forwarded");
            ask(t, k); nap(n); ask(t, k); r = 1; ev("end", k);
        }, std::make_unique<int>(5), Data{ "something that is long enough to be allocated", 3 }, std::ref(by_ref));
        case PLAIN: return new std::jthread([k, n](std::unique_ptr<int> p, int& r) { started(k, false); check(p && *p == 5, "the arguments were not forwarded"); nap(n); r = 1; ev("end", k); }, std::make_unique<int>(5), std::ref(by_ref));
        case MEMBER: return new std::jthread(&Object::f, &object, k, n);
        case BOTH: return new std::jthread(Both(), k);
        default: { ByValue v; v.d.n = 7; v.p = std::make_unique<int>(9); return new std::jthread(std::move(v), k); }
        }
    }
    void scenario()
    {
        std::vector<Op> ops; int helpers; std::vector<int> helper_ms;
        {
            Quiet q;
            int owns[H] = {}, srcs[H] = {}; bool exists[H] = {}; std::vector<int> kind(32), stopped(32); int next = 1;
            for (int n = 3 + rnd(6); n > 0; --n)
            {
                int h = rnd(H), g = rnd(H), r = rnd(20);
                if (!exists[h])
                {
                    if (r < 13 && next <= 4) { int k = next++; kind[k] = rnd(3) ? rnd(KINDS) : UNTIL_STOPPED; ops.push_back({ NEW, h, 0, k, kind[k], 10 * rnd(3) }); exists[h] = true; owns[h] = srcs[h] = k; }
                    else if (r < 15) { ops.push_back({ EMPTY, h }); exists[h] = true; owns[h] = srcs[h] = 0; }
                    else if (exists[g]) { ops.push_back({ MOVE, h, g }); exists[h] = true; owns[h] = owns[g]; srcs[h] = srcs[g]; owns[g] = srcs[g] = 0; }
                    continue;
                }
                if (r < 4 && exists[g] && g != h)
                {
                    ops.push_back({ ASSIGN, h, g }); if (owns[h]) stopped[owns[h]] = 1;
                    owns[h] = owns[g]; srcs[h] = srcs[g]; owns[g] = srcs[g] = 0;
                }
                else if (r < 7 && exists[g]) { ops.push_back({ rnd(2) ? SWAP : STDSWAP, h, g }); std::swap(owns[h], owns[g]); std::swap(srcs[h], srcs[g]); }
                else if (r < 10) { ops.push_back({ DEL, h }); exists[h] = false; if (owns[h]) stopped[owns[h]] = 1; owns[h] = srcs[h] = 0; }
                else if (r < 12) { if (owns[h] && (kind[owns[h]] != UNTIL_STOPPED || stopped[srcs[h]])) { ops.push_back({ JOIN, h }); owns[h] = 0; } }
                else if (r < 13) { if (owns[h] && (kind[owns[h]] != UNTIL_STOPPED || stopped[srcs[h]])) { ops.push_back({ DETACH, h }); owns[h] = 0; } }
                else if (r < 16) { ops.push_back({ REQ, h }); if (srcs[h]) stopped[srcs[h]] = 1; }
                else if (r < 18) ops.push_back({ LOOK, h });
                else ops.push_back({ PAUSE, 0, 0, 0, 0, 5 + 10 * rnd(2) });
            }
            helpers = rnd(3);
            for (int k = 0; k < helpers; ++k) helper_ms.push_back(10 * rnd(2));

            for (auto& i : ids) i = {};
        }
        {
            std::jthread* hs[H] = {}; int owns[H] = {}; std::vector<std::thread> others; int refs[8] = {}; bool detached = false; int waits[8] = {};
            auto look = [&](int h)
            {
                auto& j = *hs[h];
                check(j.joinable() == (j.get_id() != std::jthread::id()), "get_id does not agree with joinable");
                auto t = j.get_stop_token(); auto s = j.get_stop_source();
                bool p = t.stop_possible(); check(p == s.stop_possible(), "the token and the source do not belong together");
                ev("look", h + 1, j.joinable(), p, t.stop_requested());
            };
            auto ended = [&](int k, const char* what) { if (waits[k] == 1) check(refs[k] == 1, what); };
            for (auto& o : ops)
            {
                int h = o.h, g = o.g;
                switch (o.what)
                {
                case NEW:
                    ev("new", h + 1, o.fn); hs[h] = make(o.fn, o.kind, o.ms, refs[o.fn]); owns[h] = o.fn; waits[o.fn] = o.kind == WITH_TOKEN || o.kind == PLAIN;
                    if ((int)others.size() < helpers)
                    {
                        auto s = hs[h]->get_stop_source(); int k = o.fn, n = helper_ms[others.size()];
                        others.emplace_back([s, k, n]() mutable { nap(n); auto t = s.get_token(); request(s, k, 0); ask(t, k); });
                    }
                    break;
                case EMPTY: ev("empty", h + 1); hs[h] = new std::jthread(); owns[h] = 0; break;
                case MOVE: ev("move", h + 1, g + 1); hs[h] = new std::jthread(std::move(*hs[g])); owns[h] = owns[g]; owns[g] = 0; break;
                case SWAP: ev("swap", h + 1, g + 1); hs[h]->swap(*hs[g]); std::swap(owns[h], owns[g]); break;
                case STDSWAP:
                    if (h == g) break;
                    ev("move", 9, h + 1); { std::jthread j(std::move(*hs[h])); ev("assign", h + 1, g + 1); *hs[h] = std::move(*hs[g]); ev("assigned", h + 1, g + 1);
                    ev("assign", g + 1, 9); *hs[g] = std::move(j); ev("assigned", g + 1, 9); check(!j.joinable(), "joinable although moved"); ev("del", 9); } ev("deleted", 9); std::swap(owns[h], owns[g]); break;
                case ASSIGN: ev("assign", h + 1, g + 1); *hs[h] = std::move(*hs[g]); ev("assigned", h + 1, g + 1); ended(owns[h], "the function had not ended"); owns[h] = owns[g]; owns[g] = 0; look(g); break;
                case DEL: ev("del", h + 1); delete hs[h]; hs[h] = nullptr; ev("deleted", h + 1); ended(owns[h], "the function had not ended"); owns[h] = 0; break;
                case JOIN:
                {
                    auto id = hs[h]->get_id();
                    ev("join", h + 1); hs[h]->join(); ev("joined", h + 1); ended(owns[h], "the function had not ended"); check(id == ids[owns[h]], "get_id is not the thread that ran the function"); owns[h] = 0; look(h); break;
                }
                case DETACH: ev("detach", h + 1); hs[h]->detach(); detached = true; owns[h] = 0; break;
                case REQ: request(*hs[h], 0, h + 1); break;
                case LOOK: look(h); break;
                case PAUSE: nap(o.ms); break;
                }
            }
            for (int h = 0; h < H; ++h) if (hs[h]) { look(h); ev("del", h + 1); delete hs[h]; ev("deleted", h + 1); }
            for (auto& t : others) t.join();
            if (detached) { nap(200); idle(); nap(200); idle(); }
        }
        ev("finished");
        check(allocated() == 0, "memory is left behind");
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
