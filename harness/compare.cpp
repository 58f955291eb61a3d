// C45: comparers against spec/Compare.tla; the numbers of the comparers are those of Defs.
#include "vk.h"
#include <set>
#include "Awl/Reflection.h"
#include "Awl/KeyCompare.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/VectorSet.h"
using vk::Val;
namespace
{
    const char* const words[] = { "", "a", "aa", "ab", "b", "ba", "z" };
    struct X
    {
        int a; std::string b; double c;
        double GetC() const { return c; }
        std::string GetB() const { return b; }
        int GetA() const { return a; }
        AWL_REFLECT(a, b, c)
    };
    // numbers equal modulo n are equivalent; the comparison has a state
    struct ModLess
    {
        int n = 1000003;
        bool operator()(double p, double q) const { return ((long)p % n + n) % n < ((long)q % n + n) % n; }
    };
    using awl::member_compare; using awl::make_compare;
    using LA = member_compare<&X::a>;
    using LB = member_compare<&X::b>;
    using LC = member_compare<&X::GetC>;
    using GA = member_compare<&X::a, std::greater<>>;
    using GB = member_compare<&X::b, std::greater<>>;
    template <class T> const X& deref(const T& t) { if constexpr (std::is_same_v<T, X>) return t; else return *t; }
    Val object(const X& x) { int i = 0; while (x.b != words[i]) ++i; return Val::t(x.a, i, (int)x.c); }
    X value(const Val& v) { return X{ v.n(0), words[v.n(1)], (double)v.n(2) }; }
    template <class T> T wrap(X& x)
    {
        if constexpr (std::is_same_v<T, X>) return x;
        else if constexpr (std::is_pointer_v<T>) return &x;
        else if constexpr (std::is_same_v<T, std::shared_ptr<X>>) return std::make_shared<X>(x);
        else return std::make_unique<X>(x);
    }
    const X& lookup() { static const X x{}; return x; }
    template <class T, class C, class K> Val run(const C& comp, const Val& o, K key)
    {
        constexpr bool has_key = !std::is_same_v<K, std::nullptr_t>;
        const std::string& n = o.name();
        if (n == "compare")
        {
            X p = value(o[2]), q = value(o[3]); const T l = wrap<T>(p), r = wrap<T>(q);
            Val v = Val::t(int(comp(l, r)), int(comp(r, l)));
            if constexpr (has_key)
            {
                auto kp = key(p), kq = key(q);
                for (bool b : { comp(l, kq), comp(kq, l), comp(kp, r), comp(r, kp) }) v.push(int(b));
            }
            C copy = comp; C other = comp; other = copy;
            if (other(l, r) != comp(l, r)) return Val("a copy differs");
            return v;
        }
        std::vector<X> objects; for (auto& x : o[2].a) objects.push_back(value(x));
        awl::vector_set<T, C> s(comp); std::set<T, C> t(comp);
        for (X& x : objects) { s.insert(wrap<T>(x)); t.insert(wrap<T>(x)); }
        if (n == "sort")
        {
            Val a, b; for (auto& x : s) a.push(object(deref(x))); for (auto& x : t) b.push(object(deref(x)));
            return a.str() == b.str() ? a : Val("vector_set differs");
        }
        X p = value(o[3]);
        if constexpr (has_key)
        {
            auto k = key(p); auto i = s.find(k);
            if constexpr (requires { typename C::is_transparent; })
            {
                auto j = t.find(k);
                if ((i == s.end()) != (j == t.end())) return Val("set differs");
            }
            return i == s.end() ? Val() : object(deref(*i));
        }
        else { auto i = s.find(wrap<T>(p)); return i == s.end() ? Val() : object(deref(*i)); }
    }
    template <class T> Val pointers(int n, const Val& o)
    {
        using PA = awl::smart_compare<T, &X::a>; using PB = awl::smart_compare<T, &X::b>; using PC = awl::smart_compare<T, &X::GetC>;
        using PG = awl::smart_compare<T, &X::c, std::greater<>>;
        switch (n)
        {
        case 25: return run<T>(PA(), o, [](const X& x) -> const int& { return x.a; });
        case 26: return run<T>(PB(), o, [](const X& x) -> const std::string& { return x.b; });
        case 27: return run<T>(PC(), o, [](const X& x) { return x.c; });
        case 28: return run<T>(awl::TransparentReverseCompare<T, PA>(), o, [](const X& x) { return x.a; });
        case 29: return run<T>(awl::CompositeCompare<T, PA, PB>(), o, nullptr);
        case 30: { using C = awl::TransparentCompositeCompare<T, PB, PG>; return run<T>(C(), o, [](const X& x) { return typename C::key_type(x.b, x.c); }); }
        case 31: { using C = awl::TransparentCompositeCompare<T, PA, PB>; using R = awl::TransparentReverseCompare<T, C>; return run<T>(R(C()), o, [](const X& x) { return typename R::key_type(x.a, x.b); }); }
        default: return run<T>(awl::compose_comparers<T>(awl::KeyCompare<T, awl::getter<&X::a>, ModLess>(awl::getter<&X::a>(), ModLess{ 2 }), PC()), o, nullptr);
        }
    }
    struct Sut : vk::Sut
    {
        unsigned turn = 0;
        Val apply(const Val& o) override
        {
            int n = o.n(1); ++turn;
            auto ka = [](const X& x) { return x.a; }; auto kb = [](const X& x) -> const std::string& { return x.b; }; auto kc = [](const X& x) { return x.c; };
            const auto mod2 = make_compare(&X::a, ModLess{ 2 }); const auto mod1 = make_compare(&X::a, ModLess{ 1 }); const auto modc2 = make_compare(&X::GetC, ModLess{ 2 }); const auto mod3 = make_compare(&X::GetC, ModLess{ 3 });
            switch (n)
            {
            case 1: return turn % 3 == 0 ? run<X>(LA(), o, ka) : turn % 3 == 1 ? run<X>(make_compare(&X::a), o, ka) : run<X>(awl::tuplizable_compare<X, 0>(), o, ka);
            case 2: return turn % 3 == 0 ? run<X>(LB(), o, kb) : turn % 3 == 1 ? run<X>(make_compare(&X::GetB), o, kb) : run<X>(awl::tuplizable_compare<X, 1>(), o, kb);
            case 3: return turn % 3 == 0 ? run<X>(LC(), o, kc) : turn % 3 == 1 ? run<X>(make_compare(&X::GetC), o, kc) : run<X>(awl::tuplizable_compare<X, 2>(), o, kc);
            case 4: return turn % 2 ? run<X>(GA(), o, ka) : run<X>(make_compare(&X::GetA, std::greater<int>()), o, ka);
            case 5: return run<X>(mod2, o, ka);
            case 6: return run<X>(member_compare<&X::GetB>(), o, [](const X& x) { return x.b; });
            case 7: return turn % 2 ? run<X>(awl::compose_comparers<X>(LA(), LB()), o, nullptr) : run<X>(awl::compose_comparers<X>(make_compare(&X::a), LB()), o, nullptr);
            case 8: return run<X>(awl::CompositeCompare<X, LB, GA, LC>(), o, nullptr);
            case 9: return run<X>(awl::compose_comparers<X>(make_compare(&X::GetC), LB(), LA()), o, nullptr);
            case 10: return run<X>(awl::compose_comparers<X>(awl::reverse_comparer<X>(LB()), LA()), o, nullptr);
            case 11: return run<X>(awl::compose_comparers<X>(mod2, mod3, LB()), o, nullptr);
            case 12: return run<X>(awl::CompositeCompare<X, LA>(LA()), o, nullptr);
            case 13: { auto c = awl::compose_transparent_comparers<X>(LA(), LB()); using C = decltype(c);
                if (turn % 2) return run<X>(c, o, [](const X& x) { return C::make_key(x.a, x.b); });
                return run<X>(c, o, [](const X& x) { return std::make_tuple(x.a, x.b); }); }
            case 14: { using C = awl::TransparentCompositeCompare<X, LB, GA, LC>; return run<X>(C(), o, [](const X& x) { return C::make_key(x.b.c_str(), x.a, x.c); }); }
            case 15: { auto c = awl::compose_transparent_comparers<X>(make_compare(&X::GetC), LB(), LA()); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return std::make_tuple(x.c, x.b, x.a); }); }
            case 16: { using RB = awl::TransparentReverseCompare<X, LB>; auto c = awl::compose_transparent_comparers<X>(RB(), LA()); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return typename C::key_type(x.b, x.a); }); }
            case 17: { auto c = awl::compose_transparent_comparers<X>(mod2, mod3, LB()); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return C::make_key(x.a, x.c, x.b); }); }
            case 18: { awl::TransparentCompositeCompare<X, LA> c{ LA() }; return run<X>(c, o, [](const X& x) { return std::make_tuple(x.a); }); }
            case 19: return turn % 2 ? run<X>(awl::reverse_comparer<X>(LA()), o, nullptr) : run<X>(awl::ReverseCompare<X, LA>(), o, nullptr);
            case 20: return turn % 2 ? run<X>(awl::reverse_transparent_comparer<X>(LA()), o, ka) : run<X>(awl::TransparentReverseCompare<X, LA>(), o, ka);
            case 21: return run<X>(awl::reverse_comparer<X>(awl::compose_comparers<X>(LA(), LB())), o, nullptr);
            case 22: { auto c = awl::reverse_transparent_comparer<X>(awl::compose_transparent_comparers<X>(LA(), LB())); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return typename C::key_type(x.a, x.b); }); }
            case 23: { auto c = awl::reverse_transparent_comparer<X>(awl::reverse_transparent_comparer<X>(awl::compose_transparent_comparers<X>(LA(), LB()))); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return typename C::key_type(x.a, x.b); }); }
            case 24: return run<X>(awl::reverse_comparer<X>(awl::compose_comparers<X>(LB(), awl::reverse_comparer<X>(LA()), LC())), o, nullptr);
            case 33: return run<X>(awl::compose_comparers<X>(mod1, modc2, LB(), LA(), make_compare(&X::GetC)), o, nullptr);
            case 34: { using RC = awl::TransparentReverseCompare<X, LC>; auto c = awl::compose_transparent_comparers<X>(mod1, modc2, LB(), LA(), RC()); using C = decltype(c);
                return run<X>(c, o, [](const X& x) { return C::make_key(x.a, x.c, x.b, x.a, x.c); }); }
            case 35: return run<X>(awl::reverse_comparer<X>(awl::compose_comparers<X>(LA(), LB(), make_compare(&X::GetC, ModLess{ 1 }), LC())), o, nullptr);
            }
            Val p = pointers<X*>(n, o), s = pointers<std::shared_ptr<X>>(n, o), u = pointers<std::unique_ptr<X>>(n, o);
            if (p.str() != s.str() || p.str() != u.str()) return Val("the kinds of pointers differ");
            return p;
        }
        Val random_op(vk::Rng& r) override
        {
            int n = 1 + vk::rnd(r, 35); bool wide = vk::rnd(r, 2);
            auto obj = [&] { return Val::t(wide ? vk::rnd(r, 100000) - 50000 : vk::rnd(r, 3), vk::rnd(r, wide ? 7 : 2), vk::rnd(r, wide ? 50 : 3)); };
            if (vk::rnd(r, 3) == 0) return Val::t("compare", n, obj(), obj());
            Val l; for (int k = vk::rnd(r, 9); k > 0; --k) l.push(obj());
            if (vk::rnd(r, 2)) return Val::t("sort", n, l);
            Val f = obj(); if (l.size() && vk::rnd(r, 2)) f = l[vk::rnd(r, l.size())];
            return Val::t("find", n, l, f);
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
