// C30: generator against spec/Generator.tla
#include "vk.h"
#include "track.h"
#include "Awl/Coro/Generator.h"
#include <exception>
#include <optional>
#include <vector>
using vk::Val;
namespace
{
    struct Boom { int n; };
    long steps, calls, bodies;
    // what lives as long as a frame
    struct Frame
    {
        static inline long live = 0, errors = 0;
        Frame* self;
        bool counted;
        Frame() : self(this), counted(true) { ++live; }
        Frame(const Frame&) = delete;
        Frame(Frame&& o) noexcept : self(this), counted(o.counted) { if (o.self != &o) ++errors; o.counted = false; }
        ~Frame() { if (self != this) ++errors; self = nullptr; if (counted) --live; }
    };
    struct InBody { InBody() { ++bodies; } ~InBody() { --bodies; } };

    // T: the parameter of generator
    template <class T> struct Type;
    template <> struct Type<int>
    {
        static int get(int& x) { return x; }
        static awl::generator<int> make(Frame f, int n, int e)
        {
            InBody b; int c = 0;
            for (int k = 1; k <= n; ++k) { ++steps; ++c; co_yield c; }
            ++steps;
            if (e) throw Boom{ n };
        }
    };
    struct Text { std::string s; int n = 0; };
    template <> struct Type<const Text&>
    {
        static int get(const Text& x) { if (x.s != "text of value " + std::to_string(x.n)) ++Frame::errors; return x.n; }
        static awl::generator<const Text&> make(Frame f, int n, int e)
        {
            InBody b; vk::Tracked t(1);
            for (int k = 1; k <= n; ++k)
            {
                ++steps; t.check();
                Text x{ "text of value " + std::to_string(k), k };
                if (k % 2) co_yield x; else co_yield Text{ "text of value " + std::to_string(k), k };
            }
            ++steps;
            if (e) throw Boom{ n };
        }
    };
    template <> struct Type<std::unique_ptr<int>&&>
    {
        static int get(std::unique_ptr<int>&& x) { return *x; }
        static awl::generator<std::unique_ptr<int>&&> make(Frame f, int n, int e)
        {
            InBody b;
            for (int k = 1; k <= n; ++k) { ++steps; co_yield std::make_unique<int>(k); }
            ++steps;
            if (e) throw Boom{ n };
        }
    };
    template <> struct Type<Text>
    {
        static int get(Text& x) { return Type<const Text&>::get(x); }
        static awl::generator<Text> make(Frame f, int n, int e)
        {
            InBody b;
            for (int k = 1; k <= n; ++k) { ++steps; Text x{ "text of value " + std::to_string(k), k }; if (k % 2) co_yield x; else co_yield std::move(x); }
            ++steps;
            if (e) throw Boom{ n };
        }
    };

    template <class T> struct Sut : vk::Sut
    {
        static inline int NS = 2, MaxN = 2, MaxM = 1, Poke = 0;
        using Gen = awl::generator<T>;
        using IntGen = awl::generator<int>;         // what a mapping gives
        struct Slot { int what = 0; Gen g; typename Gen::iterator it; IntGen m; typename IntGen::iterator mit; int maps = 0, begun = 0, t = 0; };
        std::vector<Slot> s;
        Sut() : s(NS + 1) {}
        ~Sut() { s.clear(); if (Frame::live || Frame::errors || bodies || vk::Tracked::live || vk::Tracked::errors) { fprintf(stderr, "frames left or destroyed wrongly\n"); abort(); } }
        static void tag(Slot& a, Slot& b) { std::swap(a.what, b.what); std::swap(a.it, b.it); std::swap(a.mit, b.mit); std::swap(a.maps, b.maps); std::swap(a.begun, b.begun); std::swap(a.t, b.t); }
        static void clear(Slot& a) { a.what = a.maps = a.begun = a.t = 0; a.it = {}; a.mit = {}; }
        template <class G, class I> Val seen(G& g, I& it, bool end_expected = false)
        {
            (void)end_expected;
            bool e = it == g.end();
            if ((it != g.end()) == e || (g.end() == it) != e || (g.end() != it) == e) ++Frame::errors;
            if (e) return Val::t("end");
            return Val();
        }
        int value(Slot& x)
        {
            if (x.maps) { if (x.mit.operator->() != &*x.mit) ++Frame::errors; return *x.mit; }
            if constexpr (!std::is_rvalue_reference_v<T>) if (x.it.operator->() != &*x.it) ++Frame::errors;
            return Type<T>::get(*x.it);
        }
        Val step(Slot& x, bool first)
        {
            try
            {
                if (first) { if (x.maps) x.mit = x.m.begin(); else x.it = x.g.begin(); }
                else
                {
                    if (x.maps) { if (steps % 2) x.mit++; else if (&++x.mit != &x.mit) ++Frame::errors; }
                    else { if (steps % 2) x.it++; else if (&++x.it != &x.it) ++Frame::errors; }
                }
            }
            catch (const Boom&) { x.begun = 2; if (!first) check_end(x); return Val::t("throw"); }
            bool e = x.maps ? seen(x.m, x.mit).size() : seen(x.g, x.it).size();
            if (x.what) x.begun = e ? 2 : 1;
            if (e) return Val::t("end");
            return Val::t("value", value(x));
        }
        void check_end(Slot& x) { if (!(x.maps ? x.mit == x.m.end() : x.it == x.g.end())) ++Frame::errors; }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name(); long s0 = steps, c0 = calls; Val r = Val::t("ok");
            Slot& x = s[o.n(1)];
            if (n == "make") { x.m = {}; x.g = Type<T>::make(Frame(), o.n(2), o.n(3)); clear(x); x.what = 1; }
            else if (n == "begin") r = step(x, true);
            else if (n == "next") r = step(x, false);
            else if (n == "look") r = Val::t("value", value(x));
            else if (n == "drop") { { Gen a(std::move(x.g)); IntGen b(std::move(x.m)); } clear(x); }
            else if (n == "change")
            {
                if (x.maps) *x.mit = o.n(2); else if constexpr (std::is_same_v<T, int>) *x.it = o.n(2);
                r = Val::t("value", value(x));
            }
            else if (n == "map")
            {
                int t = o.n(2); auto count = std::make_shared<int>(0);
                auto f = [t, count, f = Frame()](auto&& v) mutable -> int
                {
                    ++calls; if (f.self != &f || !f.counted) ++Frame::errors;
                    if (++*count == t) throw Boom{ t };
                    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, int>) return 2 * v; else return 2 * Type<T>::get(static_cast<decltype(v)>(v));
                };
                if (x.maps) x.m = awl::fmap(std::move(f), std::move(x.m)); else x.m = awl::fmap(std::move(f), std::move(x.g));
                ++x.maps; x.t = t;
            }
            else
            {
                Slot& y = s[o.n(2)];
                if (n == "move")
                {
                    // the empty generator of the slot is replaced by one that is made from the other
                    std::destroy_at(&x.g); new (&x.g) Gen(std::move(y.g)); std::destroy_at(&x.m); new (&x.m) IntGen(std::move(y.m)); tag(x, y); clear(y);
                }
                else if (n == "assign") { x.g = std::move(y.g); x.m = std::move(y.m); if (&x != &y) { tag(x, y); clear(y); } }
                else if (n == "swap") { if (steps % 2) { x.g.swap(y.g); x.m.swap(y.m); } else { swap(x.g, y.g); swap(x.m, y.m); } if (&x != &y) tag(x, y); }
                else throw std::runtime_error("op");
            }
            if (Frame::errors || vk::Tracked::errors) return Val::t("an object or an iterator is wrong");
            return Val::t(r, steps - s0, calls - c0, Frame::live, bodies);
        }
        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int a = 1 + R(NS), b = 1 + R(NS), w = R(100); Slot& x = s[a];
                if (w < 12) return Val::t("make", a, R(MaxN + 1), R(2));
                if (w < 30) { if (x.begun == 0) return Val::t("begin", a); }
                else if (w < 60) { if (x.begun == 1) return Val::t("next", a); }
                else if (w < 65) { if (x.begun == 1) return Val::t("look", a); }
                else if (w < 70) { if (Poke && x.begun == 1) return Val::t("change", a, R(50)); }
                else if (w < 75) return Val::t("drop", a);
                else if (w < 80) { if (!x.what && a != b) return Val::t("move", a, b); }
                else if (w < 86) return Val::t("assign", a, b);
                else if (w < 90) return Val::t("swap", a, b);
                else if (x.what && x.begun == 0 && x.maps < MaxM && x.t == 0) return Val::t("map", a, R(3) ? 0 : R(MaxN + 1));
            }
        }
    };
    int params[4] = { 2, 2, 1, 0 };
    template <class T> int run(int argc, char** argv) { using X = Sut<T>; X::NS = params[0]; X::MaxN = params[1]; X::MaxM = params[2]; X::Poke = params[3]; return vk::main<X>(argc, argv); }
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &params[0], &params[1], &params[2], &params[3]);
    switch (TYPE)
    {
    case 0: return run<int>(argc, argv);
    case 1: return run<const Text&>(argc, argv);
    case 2: return run<std::unique_ptr<int>&&>(argc, argv);
    default: return run<Text>(argc, argv);
    }
}
