// C40: aggregator against spec/Aggregator.tla. TYPE 0: arguments by value, 1: by reference, 2: that can only be moved
#include "vk.h"
#include "track.h"
#include "Awl/Aggregator.h"
#include <optional>
using vk::Val;
#ifndef TYPE
#define TYPE 0
#endif
namespace
{
    struct Boom {};
    std::string text(int v) { return "a text longer than the small one " + std::to_string(v); }
    int untext(const std::string& s) { return s == text(1) ? 1 : s == text(2) ? 2 : -1; }
    using Ptr = std::unique_ptr<int>;
#if TYPE == 0
    using Agg = awl::aggregator<int, std::string, vk::Tracked>;
#elif TYPE == 1
    using Agg = awl::aggregator<const int&, const std::string&, const vk::Tracked&>;
#else
    using Agg = awl::aggregator<Ptr, Ptr&&, vk::Tracked&&>;
#endif
    int num(int x) { return x; }
    int num(const std::string& s) { return untext(s); }
    int num(const vk::Tracked& t) { return t.get(); }
    int num(const Ptr& p) { return p ? *p : -1; }
    struct Sut : vk::Sut
    {
        static inline int NS = 1, A = 3, V = 2, Once = 0;
        std::vector<std::shared_ptr<Agg>> g;
        Val calls; int slot = 0, act = 0, arg = 0, nested = 0;
        Sut() : g(NS + 1) { g[1] = make(); }
        template <class... X> void called(const X&... x)
        {
            Val v; (v.push(num(x)), ...); calls.push(v);
            if (std::exchange(nested, 1)) return;
            switch (act)
            {
            case 1: throw Boom();
            case 2: g[slot]->cancel(); break;
            case 3: { int now = v.n(arg - 1); set(*g[slot], arg, 3 - now); break; }
            }
        }
        std::shared_ptr<Agg> make()
        {
#if TYPE == 0
            std::function<void(int, std::string, vk::Tracked)> f = [this](int a, std::string b, vk::Tracked c) { called(a, b, c); };
            return std::make_shared<Agg>(f);
#elif TYPE == 1
            std::function<void(const int&, const std::string&, const vk::Tracked&)> f = [this](const int& a, const std::string& b, const vk::Tracked& c) { called(a, b, c); };
            return awl::make_shared_aggregator(f);
#else
            std::function<void(Ptr, Ptr&&, vk::Tracked&&)> f = [this](Ptr a, Ptr&& b, vk::Tracked&& c) { called(a, b, c); };
            return awl::make_shared_aggregator(f);
#endif
        }
        static void set(Agg& a, int i, int v)
        {
#if TYPE == 2
            if (i == 1) a.set<0>(std::make_unique<int>(v)); else if (i == 2) a.set<1>(std::make_unique<int>(v)); else a.set<2>(vk::Tracked(v));
#else
            if (i == 1) a.set<0>(v); else if (i == 2) a.set<1>(text(v)); else a.set<2>(vk::Tracked(v));
#endif
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            slot = o.n(1); calls = Val(); nested = 0; std::string what = "ok";
            if (n == "set")
            {
                act = o.n(4); arg = o.n(5);
                try { set(*g[slot], o.n(2), o.n(3)); } catch (const Boom&) { what = "thrown"; }
            }
            else if (n == "cancel") g[slot]->cancel();
            else if (n == "look") what = g[slot]->all() ? "all" : "not all";
            else if (n == "make") g[slot] = make();
#if TYPE != 2
            else if (n == "copy") g[slot] = std::make_shared<Agg>(*g[o.n(2)]);
#endif
            else if (n == "drop") g[slot] = nullptr;
            if (vk::Tracked::errors) what = "a destroyed value was used";
            return Val::t(what, calls);
        }
        Val random_op(vk::Rng& r) override
        {
            for (;;)
            {
                int s = 1 + vk::rnd(r, NS), t = 1 + vk::rnd(r, NS);
                if (!g[s])
                {
                    if (g[t] && vk::rnd(r, 2)) return Val::t("copy", s, t);
                    return Val::t("make", s);
                }
                switch (vk::rnd(r, 30))
                {
                case 0: return Val::t("cancel", s);
                case 1: return Val::t("drop", s);
                case 2: return Val::t("look", s);
                default:
                    int a = vk::rnd(r, 6); if (a > 3) a = 0;
                    return Val::t("set", s, 1 + vk::rnd(r, A), 1 + vk::rnd(r, V), a, a == 3 ? 1 + vk::rnd(r, A) : 1);
                }
            }
        }
        Val finish() override
        {
            g.clear();
            if (vk::Tracked::live || vk::Tracked::errors) return Val("values are left");
            return Val();
        }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &Sut::NS, &Sut::A, &Sut::V, &Sut::Once);
    return vk::main<Sut>(argc, argv);
}
