// C18: object_pool against spec/Pool.tla
#include "vk.h"
#include "Awl/ObjectPool.h"
using vk::Val;

namespace
{
    struct Sut;
    struct Obj : public awl::pooled_object
    {
        static inline long created = 0, finalized = 0, destroyed = 0, errors = 0;
        static inline Sut* sut = nullptr;
        bool used = false;       // set when handed out
        long magic = 99;
        Obj() { ++created; }
        ~Obj() { if (used || magic != 99) ++errors; magic = 0; ++destroyed; }
        void Finalize() override;
    };

    struct Sut : vk::Sut
    {
        static inline int NS = 3, Global = 0;
        std::unique_ptr<awl::object_pool<Obj>> own;
        std::vector<std::shared_ptr<Obj>> p;
        int hook = 0;
        long live0, c0 = 0, f0 = 0, d0 = 0;
        Sut() : p(NS + 1)
        {
            Obj::sut = this; live0 = Obj::created - Obj::destroyed;
            if (!Global) own = std::make_unique<awl::object_pool<Obj>>();
        }
        ~Sut() { Obj::sut = nullptr; p.clear(); if (Global) awl::clear_pool<Obj>(); own.reset(); if (Obj::created != Obj::destroyed || Obj::errors) { fprintf(stderr, "pool objects left or destroyed wrongly\n"); abort(); } }
        std::shared_ptr<Obj> make() { return take(Global ? awl::make_pooled<Obj>() : own->make()); }
        std::shared_ptr<Obj> take(std::shared_ptr<Obj> x)
        {
            if (x->used || x->magic != 99) ++Obj::errors;
            x->used = true;
            return x;
        }
        Val obs()
        {
            Val g;
            for (int s = 1; s <= NS; ++s)
            {
                int m = 0;
                for (int t = NS; t >= 1; --t) if (p[s] && p[t] == p[s]) m = t;
                if (p[s] && !p[s]->used) ++Obj::errors;
                g.push(m);
            }
            if (Obj::errors) return Val::t("an object was shared, finalized or destroyed wrongly");
            return Val::t(Val::t(Obj::created - c0, Obj::finalized - f0, Obj::destroyed - d0), g, Obj::created - Obj::destroyed - live0);
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            c0 = Obj::created; f0 = Obj::finalized; d0 = Obj::destroyed;
            auto A = [&](int k) { return o.n(k); };
            if (n == "make") { auto x = make(); p[A(1)] = std::move(x); }
            else if (n == "add") { auto x = take(Global ? awl::objectPoolSingleton<Obj>.add(new Obj()) : own->add(new Obj())); p[A(1)] = x; }
            else if (n == "drop") p[A(1)].reset();
            else if (n == "share") p[A(1)] = p[A(2)];
            else if (n == "resetmake") { hook = A(2); p[A(1)].reset(); hook = 0; }
            else if (n == "clear") { if (Global) awl::clear_pool<Obj>(); else own->clear(); }
            else throw std::runtime_error("op");
            return obs();
        }
        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int s = 1 + R(NS), t = 1 + R(NS), w = R(100);
                if (w < 35) return Val::t("make", s);
                if (w < 40) return Val::t("add", s);
                if (w < 65) return Val::t("drop", s);
                if (w < 85) { if (p[t]) return Val::t("share", s, t); }
                else if (w < 96) { if (s != t && p[s] && !p[t] && p[s].use_count() == 1) return Val::t("resetmake", s, t); }
                else return Val::t("clear");
            }
        }
    };

    void Obj::Finalize()
    {
        ++finalized;
        if (!used || magic != 99) ++errors;
        used = false;
        if (sut && sut->hook) { int h = sut->hook; sut->hook = 0; sut->p[h] = sut->make(); if (sut->p[h].get() == this) ++errors; }
    }
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d", &Sut::NS, &Sut::Global);
    return vk::main<Sut>(argc, argv);
}
