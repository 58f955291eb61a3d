// C21: the bundled stop_token under all schedules, against spec/StopToken.tla
#include "interleave.h"
#include "stop_token.hpp"
#include <optional>
using namespace sched;
namespace
{
    enum What { REQUEST, REG, DEREG, ASK, DROP, COPY, CALLBACK };
    enum Kind { PLAIN, SELF, OTHER, NESTED, REQUESTS, ASKS, DROPS };
    struct Slot;
    struct Fn { int c; void operator()() const; };
    using Callback = std::stop_callback<Fn>;
    struct Slot { Callback* p = nullptr; int kind = PLAIN, other = 0; std::atomic<bool> ready{ false }; bool fresh = true; };
    struct World
    {
        std::optional<std::stop_source> sources[8]; int used = 1;
        std::stop_token token;
        Slot slots[12];
    };
    World* w;
    void reg(int c, const std::stop_token& token, bool move = false)
    {
        Slot& s = w->slots[c];
        { Quiet q; if (!s.fresh) return; s.fresh = false; }
        ev("reg", self(), c);
        Callback* p;
        if (move) { std::stop_token t = token; p = new Callback(std::move(t), Fn{ c }); }
        else p = new Callback(token, Fn{ c });
        { Quiet q; s.p = p; }
        ev("regd", self(), c);
        s.ready.store(true, std::memory_order_release);
    }
    void dereg(int c)
    {
        Slot& s = w->slots[c];
        if (!s.ready.load(std::memory_order_acquire)) return;
        Callback* p; { Quiet q; p = s.p; s.p = nullptr; }
        if (!p) return;
        ev("dereg", self(), c);
        delete p;
        ev("deregd", self(), c);
    }
    void request(std::stop_source& s) { ev("req", self()); bool b = s.request_stop(); ev("reqd", self(), b); }
    void ask(const std::stop_token& t) { ev("ask", self()); bool r = t.stop_requested(), p = t.stop_possible(); ev("asked", self(), r, p); }
    void Fn::operator()() const
    {
        ev("cb", self(), c);
        int me = c, kind, other; { Quiet q; kind = w->slots[c].kind; other = w->slots[c].other; }
        switch (kind)
        {
        case SELF: dereg(me); break;              // *this does not exist from here on
        case OTHER: dereg(other); break;
        case NESTED: reg(other, w->token); break;
        case REQUESTS: { std::stop_source s = *w->sources[0]; request(s); } break;
        case ASKS: ask(w->token); break;
        case DROPS: { std::stop_token t = w->token; (void)t; } break;
        }
        ev("cbend", self(), me);
    }
    struct Op { int what, c; bool move; };
    void scenario()
    {
        std::vector<std::vector<Op>> programs; std::vector<Op> first;
        w = new World();
        {
            Quiet q;
            int n = 2 + (rnd(3) == 0), c = 0;
            // a callback that others end (OTHER) or make (NESTED) belongs to that callback
            auto add = [&](std::vector<Op>& p, bool owner_ends)
            {
                if (c + 2 > 12) return;
                int me = c++; Slot& s = w->slots[me];
                s.kind = rnd(2) ? PLAIN : rnd(7);
                if (s.kind == OTHER || s.kind == NESTED)
                {
                    s.other = c++; w->slots[s.other].kind = rnd(3) ? PLAIN : s.kind == OTHER ? ASKS : SELF;
                    if (s.kind == OTHER) p.push_back({ REG, s.other, false });
                }
                p.push_back({ REG, me, rnd(2) == 0 });
                if (owner_ends && s.kind != SELF && rnd(3)) p.push_back({ DEREG, me, false });
            };
            for (int k = rnd(3); k > 0; --k) add(first, false);
            int requests = 0;
            for (int t = 0; t < n; ++t)
            {
                programs.emplace_back(); auto& p = programs.back();
                w->sources[t].emplace(std::nostopstate);
                for (int k = 1 + rnd(2); k > 0; --k)
                {
                    int r = rnd(10);
                    if (r < 4) add(p, true);
                    else if (r < 7) p.push_back({ REQUEST, 0, false }), ++requests;
                    else if (r < 8) p.push_back({ ASK, 0, false });
                    else if (r < 9) p.push_back({ DROP, 0, false });
                    else p.push_back({ COPY, 0, false });
                }
            }
            if (!requests && rnd(4)) programs[0].push_back({ REQUEST, 0, false });
        }
        {
            // every thread has its own source: 0 is also the one that callbacks copy, and it is never dropped then
            std::stop_source s; w->token = s.get_token();
            for (size_t t = 0; t < programs.size(); ++t) { if (t) ev("copy", 0); w->sources[t] = s; }
            ev("copy", 0);
            ev("drop", 0);
        }
        ev("dropd", 0);
        for (auto& o : first) reg(o.c, w->token, o.move);
        std::vector<std::thread> threads;
        for (size_t t = 0; t < programs.size(); ++t) threads.emplace_back([t, &programs]
        {
            std::stop_token token = w->token;
            bool has = true; std::optional<std::stop_source> copy;
            for (auto& o : programs[t]) switch (o.what)
            {
            case REQUEST: if (has) request(*w->sources[t]); break;
            case REG: reg(o.c, token, o.move); break;
            case DEREG: dereg(o.c); break;
            case ASK: ask(token); break;
            case DROP: if (t && has) { has = false; ev("drop", self()); w->sources[t].reset(); ev("dropd", self()); } break;
            case COPY: if (has && !copy) { ev("copy", self()); copy.emplace(*w->sources[t]); } break;
            }
            if (copy) { ev("drop", self()); copy.reset(); ev("dropd", self()); }
        });
        for (auto& t : threads) t.join();
        ask(w->token);
        for (size_t t = 0; t < programs.size(); ++t) if (w->sources[t]) { ev("drop", 0); w->sources[t].reset(); ev("dropd", 0); }
        ask(w->token);
        for (int c = 0; c < 12; ++c) dereg(c);
        ev("finished");
        delete w;
        threads.clear(); threads.shrink_to_fit();
        check(allocated() == 0, "the stop state or a callback is left behind");
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
