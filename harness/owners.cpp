// C42: scope_guard and unique_ptr against spec/Owners.tla. TYPE 0: a guard of a lambda, 1: virtual_guard, 2: unique_ptr
#include "vk.h"
#include "Awl/ScopeGuard.h"
#include "Awl/UniquePtr.h"
#include <optional>
using vk::Val;
#ifndef TYPE
#define TYPE 0
#endif
namespace
{
    struct Boom {};
    Val ran; long objects, errors;
    struct Sut : vk::Sut
    {
        static inline int Kind = 1, NS = 3, N = 3, Assign = 0;
        std::vector<int> used;          // by whom a number is used: 0 nobody, 1 somebody
        int least() { for (int n = 1; n <= N; ++n) if (!used[n]) return n; return 0; }
#if TYPE < 2
        struct Free
        {
            int id; Sut* s; bool moved = false;
            void operator()() { if (moved) ++errors; ran.push(id); s->used[id] = 0; }
            Free(int i, Sut* t) : id(i), s(t) {}
            Free(const Free&) = default;
            Free(Free&& o) : id(o.id), s(o.s), moved(o.moved) { o.moved = true; }
        };
#if TYPE == 0
        using Guard = awl::scope_guard<Free>;
        static inline int turn = 0;      // a guard is engaged unless it is told not to be
        static Guard guard(Free f, bool e)
        {
            if (e && ++turn % 3 == 1) return Guard(std::move(f));
            if (e && turn % 3 == 2) return awl::make_scope_guard(std::move(f));
            return awl::make_scope_guard(std::move(f), e);
        }
        template <class I> static Guard guard(I i, Free f, bool e) { if (e && ++turn % 2) return awl::make_scope_guard(i, std::move(f)); return awl::make_scope_guard(i, std::move(f), e); }
#else
        using Guard = awl::virtual_guard;
        static Guard guard(Free f, bool e) { static int turn = 0; if (e && ++turn % 2) return Guard(std::function<void()>(f)); if (e) return awl::make_virtual_guard(std::move(f)); return Guard(std::function<void()>(f), e); }
        template <class I> static Guard guard(I i, Free f, bool e) { return awl::make_scope_guard(i, std::function<void()>(f), e); }
#endif
        std::vector<std::unique_ptr<Guard>> g;
        std::vector<int> owns;
        Sut() : used(N + 1), g(NS + 1), owns(NS + 1) {}
        Val apply(const Val& o) override
        {
            const std::string& n = o.name(); std::string what = "ok"; ran = Val();
            int i = o.n(1);
            if (n == "guard")
            {
                int k = least(); bool e = o.n(2);
                try
                {
                    Free f(k, this);
                    auto init = [k, &o] { ran.push(10 + k); if (o.n(3) == 2) throw Boom(); };
                    if (o.n(3)) g[i].reset(new Guard(guard(init, f, e))); else g[i].reset(new Guard(guard(f, e)));
                    if (e) used[k] = 1;
                    owns[i] = e ? k : 0;
                }
                catch (const Boom&) { what = "thrown"; }
            }
#if TYPE == 1
            else if (n == "fake") { g[i].reset(new Guard(awl::make_fake_guard())); owns[i] = 0; }
            else if (n == "let")
            {
                int j = o.n(2);
                *g[i] = std::move(*g[j]);
                if (i != j) { owns[i] = owns[j]; owns[j] = 0; }
            }
#endif
            else if (n == "move") { int j = o.n(2); g[i].reset(new Guard(std::move(*g[j]))); owns[i] = owns[j]; owns[j] = 0; }
            else if (n == "release") { g[i]->release(); used[owns[i]] = 0; owns[i] = 0; }
            else if (n == "drop") { g[i].reset(); owns[i] = 0; }
            else what = "?";
            if (errors) what = "a function was run after it was moved";
            return Val::t(what, ran, 0);
        }
        Val random_op(vk::Rng& r) override
        {
            for (;;)
            {
                int i = 1 + vk::rnd(r, NS), j = 1 + vk::rnd(r, NS);
                if (!g[i])
                {
                    if (vk::rnd(r, 2)) { if (g[j]) return Val::t("move", i, j); continue; }
                    if (TYPE == 1 && vk::rnd(r, 5) == 0) return Val::t("fake", i);
                    if (least()) return Val::t("guard", i, (int)(vk::rnd(r, 4) > 0), vk::rnd(r, 3));
                    continue;
                }
                if (TYPE == 1 && g[j] && vk::rnd(r, 2)) return Val::t("let", i, j);
                return Val::t(vk::rnd(r, 3) ? "drop" : "release", i);
            }
        }
        Val finish() override { g.clear(); if (errors) return Val("a function was run after it was moved"); return Val(); }
#else
        struct Obj
        {
            int id; Obj* self = this; Sut* s;
            Obj(int i, Sut* t) : id(i), s(t) { ++objects; s->used[id] = 1; }
            ~Obj() { if (self != this) ++errors; self = nullptr; --objects; s->used[id] = 0; ran.push(id); }
            void check() { if (self != this) ++errors; }
        };
        using Ptr = awl::unique_ptr<Obj>;
        std::vector<std::unique_ptr<Ptr>> g; std::map<int, Obj*> out;
        Sut() : used(N + 1), g(NS + 1) {}
        Val apply(const Val& o) override
        {
            const std::string& n = o.name(); std::string what = "ok"; ran = Val();
            int i = o.n(1);
            if (n == "pointer")
            {
                if (o.n(2)) g[i].reset(new Ptr());
                else if (i % 2) g[i].reset(new Ptr(awl::make_unique<Obj>(least(), this)));
                else g[i].reset(new Ptr(new Obj(least(), this)));
            }
            else if (n == "let") *g[i] = std::move(*g[o.n(2)]);
            else if (n == "move") g[i].reset(new Ptr(std::move(*g[o.n(2)])));
            else if (n == "release") { if (Obj* p = g[i]->release()) out[p->id] = p; }
            else if (n == "drop") g[i].reset();
            else if (n == "renew")
            {
                int k = o.n(2);
                Obj* p = nullptr;
                if (auto x = out.extract(k)) p = x.mapped(); else if (k) p = new Obj(k, this);
                if (p == nullptr && i % 2) *g[i] = {}; else g[i]->reset(p);
            }
            else if (n == "delete") { delete out.at(i); out.erase(i); }
            else if (n == "look")
            {
                Ptr& p = *g[i];
                what = p ? "object" : "null";
                if (bool(p) != (p.get() != nullptr) || (p == (const Obj*)nullptr) == bool(p) || (p != (const Obj*)p.get())) what = "inconsistent";
                if (p) { p->check(); (*p).check(); if (&*p != p.get()) what = "inconsistent"; ran.push(p->id); }
            }
            else if (n == "same")
            {
                const Ptr& a = *g[i]; const Ptr& b = *g[o.n(2)];
                what = a == b ? "equal" : "different";
                if ((a == b) == (a != b) || (a == b) != (a == (const Obj*)b.get())) what = "inconsistent";
            }
            else what = "?";
            if (errors) what = "an object was used after its destruction";
            return Val::t(what, ran, objects);
        }
        Val random_op(vk::Rng& r) override
        {
            for (;;)
            {
                int i = 1 + vk::rnd(r, NS), j = 1 + vk::rnd(r, NS), k = 1 + vk::rnd(r, N);
                if (vk::rnd(r, 4) == 0 && out.count(k)) return Val::t("delete", k);
                if (!g[i])
                {
                    if (g[j] && vk::rnd(r, 2)) return Val::t("move", i, j);
                    int e = vk::rnd(r, 4) == 0;
                    if (e || least()) return Val::t("pointer", i, e);
                    continue;
                }
                switch (vk::rnd(r, 9))
                {
                case 0: case 1: if (g[j]) return Val::t("let", i, j); break;
                case 2: return Val::t("release", i);
                case 3: return Val::t("drop", i);
                case 4: if (out.count(k)) return Val::t("renew", i, k); break;
                case 5: if (least()) return Val::t("renew", i, least()); break;
                case 6: return Val::t("renew", i, 0);
                case 7: return Val::t("look", i);
                case 8: if (g[j]) return Val::t("same", i, j); break;
                }
            }
        }
        Val finish() override { g.clear(); for (auto& x : out) delete x.second; if (objects || errors) return Val("objects are left"); return Val(); }
#endif
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &Sut::Kind, &Sut::NS, &Sut::N, &Sut::Assign);
    return vk::main<Sut>(argc, argv);
}
