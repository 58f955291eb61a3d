// C41: shared_singleton and ondemand_singleton against spec/Singleton.tla. The state of a type lasts
// as long as the process, so every behaviour uses types of its own.
#include "vk.h"
#include "Awl/SharedSingleton.h"
#include <thread>
using vk::Val;
#ifndef TYPE
#define TYPE 0      // 1: the creation is defined by the user
#endif
namespace
{
    struct Boom {};
    long alive, errors; int created[3]; int fail;
    enum { Types = 40 };
    template <int N, int K> struct Obj
    {
        int id; Obj* self;
        Obj() : id(++created[K]), self(this)
        {
            if (fail == 1) { --created[K]; throw Boom(); }
            ++alive;
            if (fail == 2) { --alive; throw Boom(); }
        }
        ~Obj() { if (self != this) ++errors; self = nullptr; --alive; }
    };
#if TYPE == 0
    template <int N, int K> using Type = Obj<N, K>;
#else
    // its creation is defined by the user
    template <int N, int K> struct Type : Obj<N, K> { Type(int) {} };
    template <class T> std::shared_ptr<T> create()
    {
        if (fail == 3) return nullptr;
        return std::shared_ptr<T>(new T(1));
    }
#endif
}
#if TYPE == 1
namespace awl
{
#define M(n) template <> std::shared_ptr<Type<n, 1>> make_singleton_instance<>() { return create<Type<n, 1>>(); } \
             template <> std::shared_ptr<Type<n, 2>> make_singleton_instance<>() { return create<Type<n, 2>>(); }
#define M5(n) M(n) M(n + 1) M(n + 2) M(n + 3) M(n + 4)
#define M20(n) M5(n) M5(n + 5) M5(n + 10) M5(n + 15)
    M20(0) M20(20)
}
#endif
namespace
{
    struct Holder { std::shared_ptr<void> p; int kind = 0, id = 0; };
    using Get = std::pair<std::shared_ptr<void>, int> (*)();
    template <class T, int K> std::pair<std::shared_ptr<void>, int> get()
    {
        std::shared_ptr<T> p;
        if constexpr (K == 1) p = awl::shared_singleton<T>(); else p = awl::ondemand_singleton<T>();
        if (p && p->self != p.get()) ++errors;
        return { p, p ? p->id : 0 };
    }
    template <int... N> Get getter(int n, int k, std::integer_sequence<int, N...>)
    {
        static const Get a[] = { get<Type<N, 1>, 1>... }, b[] = { get<Type<N, 2>, 2>... };
        return k == 1 ? a[n] : b[n];
    }
    struct Sut : vk::Sut
    {
        static inline int H = 2, MaxI = 3, Null = 0, next = 0;
        std::vector<Holder> h; int type;
        Sut() : h(H + 1), type(next++) { if (type >= Types) { fprintf(stderr, "too many behaviours\n"); exit(2); } created[1] = created[2] = 0; }
        // Every other holder lives in another thread: they take turns, and there is still one instance.
        Val apply(const Val& o) override
        {
            Val r;
            if (o.n(o.name() == "get" ? 2 : 1) % 2) return act(o);
            std::thread([&] { r = act(o); }).join();
            return r;
        }
        Val act(const Val& o)
        {
            const std::string& n = o.name(); std::string what = "ok"; int id = 0;
            if (n == "get")
            {
                int i = o.n(2); fail = o.n(3);
                try
                {
                    auto r = getter(type, o.n(1), std::make_integer_sequence<int, Types>())();
                    h[i].p = r.first; h[i].kind = o.n(1); h[i].id = id = r.second;
                    if (!r.first) what = "null", h[i] = Holder();
                }
                catch (const Boom&) { what = "thrown"; }
                fail = 0;
            }
            else if (n == "release") h[o.n(1)] = Holder();
            else if (n == "share") { h[o.n(2)] = h[o.n(1)]; id = h[o.n(1)].id; }
            if (errors) what = "an instance was used after its destruction";
            return Val::t(what, id, alive, created[1], created[2]);
        }
        Val random_op(vk::Rng& r) override
        {
            int i = 1 + vk::rnd(r, H), j = 1 + vk::rnd(r, H), k = 1 + vk::rnd(r, 2);
            if (h[i].p && vk::rnd(r, 2) && !h[j].p) return Val::t("share", i, j);
            if (h[i].p) return Val::t("release", i);
            bool some = false; for (auto& x : h) if (x.p && x.kind == k) some = true;
            int f = some || vk::rnd(r, 3) || (k == 1 && gone) ? 0 : 1 + vk::rnd(r, 2 + Null);
            if (k == 1 && !f && !some) gone = true;
            return Val::t("get", k, i, f);
        }
        bool gone = false;
        Val finish() override { h.clear(); if (alive || errors) return Val("instances are left"); return Val(); }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d", &Sut::H, &Sut::MaxI, &Sut::Null);
    return vk::main<Sut>(argc, argv);
}
