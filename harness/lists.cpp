// C16: quick_list and single_list against spec/Lists.tla
#include "vk.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
using vk::Val;

namespace
{
    AWL_DECLARE_QUICK_LINK(link_a)
    AWL_DECLARE_QUICK_LINK(link_b)

    struct Pad { long pad = 77; };
    struct El : Pad, public link_a, public link_b, public awl::single_link
    {
        El(int i) : id(i) {}
        virtual ~El() { id = -99; }
        int id;
    };

    using A = awl::quick_list<El, link_a>;
    using B = awl::quick_list<El, link_b>;
    using S = awl::single_list<El, awl::single_link>;

    struct Sut : vk::Sut
    {
        static inline int NE = 3, NA = 2, NB = 0, NS = 0;
        std::vector<std::unique_ptr<A>> a; std::vector<std::unique_ptr<B>> b; std::vector<std::unique_ptr<S>> s;
        std::vector<std::unique_ptr<El>> e;

        Sut()
        {
            for (int i = 0; i < NA; ++i) a.push_back(std::make_unique<A>());
            for (int i = 0; i < NB; ++i) b.push_back(std::make_unique<B>());
            for (int i = 0; i < NS; ++i) s.push_back(std::make_unique<S>());
            for (int i = 1; i <= NE; ++i) e.push_back(std::make_unique<El>(i));
        }
        El* E(int i) { return e.at(i - 1).get(); }
        int id(const El* x) { return x ? x->id : -1; }

        template <class L> Val view(L& l)
        {
            const L& c = l;
            Val f, r, cf;
            int n = 0;
            for (auto i = l.begin(); i != l.end() && n < 1000; ++i, ++n) f.push((*i)->id);
            n = 0;
            for (auto i = c.begin(); i != c.end() && n < 1000; i++, ++n) cf.push(i->id);
            if (f.str() != cf.str()) return Val::t("const iteration differs");
            if constexpr (!std::is_same_v<L, S>)
            {
                n = 0;
                for (auto i = l.rbegin(); i != l.rend() && n < 1000; ++i, ++n) r.push((*i)->id);
                // back from the ends
                Val f2, r2; n = 0;
                for (auto i = l.end(); i != l.begin() && n < 1000; ++n) { --i; r2.push((*i)->id); }
                n = 0;
                for (auto i = c.rend(); i != c.rbegin() && n < 1000; ++n) { i--; f2.push((*i)->id); }
                if (f2.str() != f.str() || r2.str() != r.str()) return Val::t("backward iteration differs", f2, r2);
            }
            else
                for (size_t i = f.size(); i > 0; --i) r.push(f[i - 1]);
            return Val::t(f, r, Val::t(c.size(), int(c.empty()), int(c.contains_one()), int(c.empty_or_contains_one())));
        }

        Val obs(Val r)
        {
            Val ls, fl;
            for (auto& l : a) ls.push(view(*l));
            for (auto& l : b) ls.push(view(*l));
            for (auto& l : s) ls.push(view(*l));
            for (auto& x : e) fl.push(Val::t(int(x->link_a::included()), int(x->link_b::included()), int(x->awl::single_link::included())));
            return Val::t(r, ls, fl);
        }

        template <class L, class F> static auto at(L& l, El* x) { auto i = l.begin(); while (*i != x) ++i; return i; }

        template <class L> Val quick(std::vector<std::unique_ptr<L>>& v, int base, const Val& o)
        {
            const std::string& n = o.name();
            auto P = [&](int k) -> L& { return *v.at(o.n(k) - base - 1); };
            L& l = P(1);
            auto at = [&](El* x) { auto i = l.begin(); while (*i != x) ++i; return i; };
            auto rat = [&](El* x) { auto i = l.rbegin(); while (*i != x) ++i; return i; };
            if (n == "pushfront") { l.push_front(E(o.n(2))); return obs(Val()); }
            if (n == "pushback") { l.push_back(E(o.n(2))); return obs(Val()); }
            if (n == "insafter") { L::insert(at(E(o.n(2))), E(o.n(3))); return obs(Val()); }
            if (n == "insbefore") { L::insert(rat(E(o.n(2))), E(o.n(3))); return obs(Val()); }
            if (n == "popfront") { El* x = l.pop_front(); return obs(Val::t(id(x))); }
            if (n == "popback") { El* x = l.pop_back(); return obs(Val::t(id(x))); }
            if (n == "peek")
            {
                const L& c = l;
                if (c.front() != l.front() || c.back() != l.back()) return Val::t("const");
                return Val::t(id(l.front()), id(l.back()));
            }
            if (n == "erase") { L::erase(E(o.n(2))); return obs(Val()); }
            if (n == "eraseit") { L::erase(at(E(o.n(2)))); return obs(Val()); }
            if (n == "eraserit") { L::erase(rat(E(o.n(2)))); return obs(Val()); }
            if (n == "splicefront") { l.push_front(P(2)); return obs(Val()); }
            if (n == "spliceback") { l.push_back(P(2)); return obs(Val()); }
            if (n == "movenew") { v[o.n(1) - base - 1] = std::make_unique<L>(std::move(P(2))); return obs(Val()); }
            if (n == "massign") { l = std::move(P(2)); return obs(Val()); }
            if (n == "clear") return clear(l);
            throw std::runtime_error("op");
        }
        template <class L> Val clear(L& l)
        {
            std::vector<int> ids; for (auto* x : l) ids.push_back(x->id);
            l.clear();
            for (int i : ids) e[i - 1] = std::make_unique<El>(i);
            return obs(Val());
        }

        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            if (n == "exclude") { El* x = E(o.n(2)); if (o.n(1) == 1) x->link_a::safe_exclude(); else x->link_b::safe_exclude(); return obs(Val()); }
            int l = o.n(1);
            if (l <= NA) return quick(a, 0, o);
            if (l <= NA + NB) return quick(b, NA, o);
            S& x = *s.at(l - NA - NB - 1);
            if (n == "pushfront") { x.push_front(E(o.n(2))); return obs(Val()); }
            if (n == "popfront") { El* y = x.pop_front(); return obs(Val::t(id(y))); }
            if (n == "peek") return Val::t(id(x.front()), 0);
            if (n == "clear") return clear(x);
            throw std::runtime_error("op");
        }

        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            auto inc = [&](int l, int x) { El* y = E(x); return l <= NA ? y->link_a::included() : l <= NA + NB ? y->link_b::included() : y->awl::single_link::included(); };
            auto members = [&](int l)
            {
                std::vector<int> v;
                if (l <= NA) for (auto* x : *a[l - 1]) v.push_back(x->id);
                else if (l <= NA + NB) for (auto* x : *b[l - NA - 1]) v.push_back(x->id);
                else for (auto* x : *s[l - NA - NB - 1]) v.push_back(x->id);
                return v;
            };
            for (;;)
            {
                int l = 1 + R(NA + NB + NS), x = 1 + R(NE), w = R(100);
                bool single = l > NA + NB;
                auto m = members(l);
                if (w < 40 && !inc(l, x))
                {
                    if (single || w < 12) return Val::t("pushfront", l, x);
                    if (w < 24 || m.empty()) return Val::t("pushback", l, x);
                    return Val::t(w < 32 ? "insafter" : "insbefore", l, m[R((int)m.size())], x);
                }
                if (w < 48 && !m.empty()) return Val::t(single || w < 44 ? "popfront" : "popback", l);
                if (w < 52 && !m.empty()) return Val::t("peek", l);
                if (w < 66 && !m.empty() && !single) { static const char* n[] = { "erase", "eraseit", "eraserit" }; return Val::t(n[R(3)], l, m[R((int)m.size())]); }
                if (w < 70) return Val::t("exclude", 1 + R(2), x);
                if (w < 90 && !single)
                {
                    int lo = l <= NA ? 1 : NA + 1, n = l <= NA ? NA : NB, k = lo + R(n);
                    if (k == l) continue;
                    if (R(3)) return Val::t(R(2) ? "splicefront" : "spliceback", l, k);
                    if (m.empty()) return Val::t(R(2) ? "movenew" : "massign", l, k);
                }
                if (w >= 97)
                {
                    bool ok = true;
                    for (int y : m)
                    {
                        El* z = E(y);
                        if (z->link_a::included() + z->link_b::included() + z->awl::single_link::included() > 1) ok = false;
                    }
                    if (ok) return Val::t("clear", l);
                }
            }
        }
        ~Sut() { for (auto& x : a) while (!x->empty()) x->pop_front(); for (auto& x : b) while (!x->empty()) x->pop_back(); }
    };
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &Sut::NE, &Sut::NA, &Sut::NB, &Sut::NS);
    return vk::main<Sut>(argc, argv);
}
