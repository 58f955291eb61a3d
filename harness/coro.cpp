// C31, C32: asynchronous generators and tasks against spec/Coro.tla. The bodies of the coroutines
// interpret the operations of the behaviour being replayed: whoever has control takes the next one.
#include "vk.h"
#include "track.h"
#include "Awl/Coro/AsyncGenerator.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
#include <optional>
using vk::Val;
namespace
{
    using P = awl::ProcessTask<vk::Tracked>;
    using U = awl::UpdateTask;
    using G = awl::async_generator<vk::Tracked>;
    using W = awl::ProcessTask<void>;

    struct Boom { int v; };
    struct Out { int code = 0, v = 0; };
    long frames, bodies, bad;

    // a parameter of a coroutine, it lives as long as the frame
    struct Frame
    {
        Frame* self = this; bool counted = true;
        Frame() { ++frames; }
        Frame(Frame&& o) noexcept : counted(o.counted) { if (o.self != &o) ++bad; o.counted = false; }
        ~Frame() { if (self != this) ++bad; self = nullptr; if (counted) --frames; }
    };
    struct InBody { InBody() { ++bodies; } ~InBody() { --bodies; } };

    // the object of a coroutine
    struct Obj
    {
        int kind = 0;
        std::optional<P> p; std::optional<U> u; std::optional<G> g; std::optional<W> w;
        std::shared_ptr<std::optional<G::iterator>> it = std::make_shared<std::optional<G::iterator>>();
    };
    using Objects = std::map<int, Obj>;
    Objects mine;                                       // those of the program
    std::vector<Objects::node_type> moved;              // moved from, they own nothing
    std::map<int, std::coroutine_handle<>> events;      // suspended at an event
    struct Event
    {
        int id; std::coroutine_handle<> h;
        ~Event() { auto e = events.find(id); if (h && e != events.end() && e->second == h) events.erase(e); }
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> c) { events[id] = h = c; }
        void await_resume() {}
    };

    Val test; size_t at; bool over; long number, steps;
    [[noreturn]] void mismatch(const std::string& what) { printf("MISMATCH test %ld: %s\n", number, what.c_str()); vk::dump_last(); fflush(stdout); _exit(3); }

    // control came to the actor, which got this
    const Val* next(int actor, Out out)
    {
        if (over) return nullptr;
        if (at > 0)
        {
            std::string got = Val::t(actor, out.code, out.v, frames, bodies).str();
            if (test[at - 1][1].s != got)
                mismatch(test[at - 1][0].str() + " gave " + got + ", the specification says " + test[at - 1][1].s);
            if (bad || vk::Tracked::errors) mismatch("an object was used after its destruction");
        }
        if (at == test.size()) { over = true; return nullptr; }
        const Val& op = test[at++][0];
        ++steps;
        vk::note(op.str());
        return &op;
    }

    P process(Frame, int a);
    U update(Frame, int a);
    G generator(Frame, int a);
    W nothing(Frame, int a);

    Obj& find(Objects& own, int k)
    {
        auto i = own.find(k);
        if (i != own.end()) return i->second;
        return mine.at(k);
    }
    Objects& where(Objects& own, int k) { return own.count(k) ? own : mine; }

    template <class T> void round(std::optional<T>& x)
    {
        T y(std::move(*x));
        T z; z = std::move(y);
        if constexpr (std::is_same_v<T, U>) { if (y || !z || *x) mismatch("an empty task is not empty"); }
        *x = std::move(z);
    }

    // the operations that are not coroutine expressions
    bool common(Objects& own, const Val& o, Out& out)
    {
        const std::string& n = o.name();
        out = {};
        if (n == "start")
        {
            int k = o.n(1); Obj x; x.kind = o.n(2);
            switch (x.kind)
            {
            case 1: x.p.emplace(process(Frame(), k)); break;
            case 2: x.u.emplace(update(Frame(), k)); break;
            case 3: x.g.emplace(generator(Frame(), k)); break;
            case 4: x.w.emplace(nothing(Frame(), k)); break;
            }
            own.emplace(k, std::move(x));
        }
        else if (n == "fire")
        {
            auto e = events.extract(o.n(1));
            if (!e) mismatch("the coroutine " + o[1].str() + " does not wait for its event");
            e.mapped().resume();
        }
        else if (n == "drop") { auto x = where(own, o.n(1)).extract(o.n(1)); }
        else if (n == "give") mine.insert(own.extract(o.n(1)));
        else if (n == "take") own.insert(mine.extract(o.n(1)));
        else if (n == "move")
        {
            Obj& x = find(own, o.n(1));
            switch (x.kind)
            {
            case 1: round(x.p); break;
            case 2: round(x.u); break;
            case 3: round(x.g); { G e; e.swap(*x.g); G f; awl::swap(e, f); x.g->swap(f); } break;
            case 4: round(x.w); break;
            }
        }
        else if (n == "assign")
        {
            Objects& t = where(own, o.n(1));
            Obj& x = t.at(o.n(1)); Obj& y = t.at(o.n(2));
            switch (x.kind)
            {
            case 1: *x.p = std::move(*y.p); break;
            case 2: *x.u = std::move(*y.u); break;
            case 3: *x.g = std::move(*y.g); break;
            case 4: *x.w = std::move(*y.w); break;
            }
            x.it = std::move(y.it);
            moved.push_back(t.extract(o.n(2)));
            auto node = t.extract(o.n(1)); node.key() = o.n(2); t.insert(std::move(node));
        }
        else if (n == "release")
        {
            auto x = where(own, o.n(1)).extract(o.n(1));
            x.mapped().u->release();
            if (*x.mapped().u) mismatch("a released task is not empty");
            x.mapped().u->release();
        }
        else if (n == "look") { vk::Tracked& t = ***find(own, o.n(1)).it; t.check(); out = { 1, t.v }; }
        else if (n == "ready")
        {
            Obj& x = find(own, o.n(1));
            try { out = { 1, x.kind == 1 ? x.p->is_ready() : x.u->done() }; } catch (const Boom& b) { out = { 2, b.v }; }
        }
        else if (n == "get")
        {
            try { vk::Tracked t = find(own, o.n(1)).p->get(); t.check(); out = { 1, t.v }; } catch (const Boom& b) { out = { 2, b.v }; }
        }
        else return false;
        return true;
    }

    // The body. YIELD(v) and FINISH(v): how this kind yields and returns; while the test is over it returns.
#define BODY(YIELD, FINISH) \
        InBody in; Objects own; Out out; \
        for (;;) \
        { \
            const Val* q = next(a, out); \
            if (!q) { mine.merge(own); FINISH(0) } \
            const Val& o = *q; const std::string& n = o.name(); \
            if (common(own, o, out)) continue; \
            if (n == "wait") co_await Event{ a }; \
            else if (n == "empty") { G e; auto i = co_await e.begin(); out.code = i == e.end() ? 3 : 1; } \
            else if (n == "await") \
            { \
                Obj& x = find(own, o.n(1)); \
                try \
                { \
                    if (x.kind == 1) { vk::Tracked t = co_await *x.p; t.check(); out = { 1, t.v }; } \
                    else if (x.kind == 2) { co_await *x.u; out = { 4, 0 }; } \
                    else { co_await *x.w; out = { 4, 0 }; } \
                } \
                catch (const Boom& b) { out = { 2, b.v }; } \
            } \
            else if (n == "begin" || n == "next") \
            { \
                G& g = *find(own, o.n(1)).g; auto it = find(own, o.n(1)).it; /* the object can go while this is suspended */ \
                auto end = g.end(); \
                try \
                { \
                    if (n == "begin") { auto i = co_await g.begin(); *it = i; } \
                    else \
                    { \
                        G::iterator& i = co_await ++**it; \
                        if (&i != &**it) mismatch("the increment gave another iterator"); \
                    } \
                    if (*it == end) out = { 3, 0 }; \
                    else { vk::Tracked& t = ***it; t.check(); out = { 1, t.v }; } \
                } \
                catch (const Boom& b) { out = { 2, b.v }; if (n == "next" && **it != end) mismatch("the iterator is not at the end after an exception"); } \
            } \
            else if (n == "yield") { YIELD(o.n(1)) } \
            else if (n == "finish") { FINISH(o.n(1)) } \
            else if (n == "throw") throw Boom{ o.n(1) }; \
            else mismatch("unknown operation " + o.str()); \
        }
#define NO_YIELD(v) mismatch("yield");
#define YIELDS(v) if ((v) % 2) { vk::Tracked t(v); co_yield t; t.check(); } else co_yield vk::Tracked(v);
#define RETURNS(v) co_return vk::Tracked(v);
#define ENDS(v) co_return;
    P process(Frame, int a) { BODY(NO_YIELD, RETURNS) }
    U update(Frame, int a) { BODY(NO_YIELD, ENDS) }
    G generator(Frame, int a) { BODY(YIELDS, ENDS) }
    W nothing(Frame, int a) { BODY(NO_YIELD, ENDS) }

    void run()
    {
        at = 0; over = false;
        {
            Out out;
            while (const Val* o = next(0, out))
                if (!common(mine, *o, out)) mismatch("the program cannot do " + o->str());
        }
        while (!events.empty()) { auto e = events.extract(events.begin()); e.mapped().resume(); }
        vk::note("[\"destroy\"]");
        mine.clear();
        if (frames || bodies) mismatch("at the end there are " + std::to_string(frames) + " frames and " + std::to_string(bodies) + " bodies");
        moved.clear();
        if (bad) mismatch("an object was used after its destruction");
        if (vk::Tracked::live || vk::Tracked::errors) mismatch("at the end there are " + std::to_string(vk::Tracked::live) + " values");
    }
}
int main(int argc, char** argv)
{
    vk::install();
    if (argc < 3 || std::string(argv[1]) != "replay") return 2;
    std::ifstream in(argv[2]);
    for (std::string line; std::getline(in, line); ++number)
    {
        test = Val::parse(line);
        vk::last_ops.clear();
        run();
    }
    printf("OK tests=%ld steps=%ld\n", number, steps);
    return 0;
}
