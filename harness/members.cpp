// C54: structures and the tuples of their members against spec/Members.tla.
#include "vk.h"
#include "Awl/Tuplizable.h"
#include "Awl/TupleHelpers.h"
#include "Awl/Hashable.h"
#include "Awl/Getters.h"
#include "Awl/Reflection.h"
#include "Awl/TypeTraits.h"
#include "Awl/FunctionTraits.h"
#include <optional>
#include <unordered_set>
#include <set>
using vk::Val; using vk::Rng;
namespace mem
{
    struct Record
    {
        int a = 0; std::string b; std::optional<int> c;
        int first() const { return a; }
        AWL_TUPLIZABLE(a, b, c)
    };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Record)
    struct Nest { Record r; int z = 0; std::vector<int> l; AWL_REFLECT(r, z, l) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Nest)
    struct Single { std::vector<int> l; AWL_TUPLIZABLE(l) };
    AWL_MEMBERWISE_EQUATABLE(Single)
    // compared by the functions, has no operators
    struct Plain { int a = 0; std::string b; AWL_TUPLIZABLE(a, b) };
}
AWL_HASHABLE(mem::Record)
AWL_HASHABLE(mem::Nest)
AWL_HASHABLE(mem::Single)
namespace
{
    using namespace mem;
    Val codes(const std::string& s) { Val v; for (char c : s) v.push((int)c); return v; }
    std::string text(const Val& v) { std::string s; for (auto& x : v.a) s += (char)x.i; return s; }
    Val some(const std::optional<int>& o) { Val v; if (o) v.push(*o); return v; }
    std::optional<int> opt(const Val& v) { return v.size() ? std::optional<int>(v.n(0)) : std::nullopt; }
    Record record(const Val& v) { Record r; r.a = v.n(0); r.b = text(v[1]); r.c = opt(v[2]); return r; }
    std::vector<int> list(const Val& v) { std::vector<int> l; for (auto& x : v.a) l.push_back((int)x.i); return l; }
    Nest nest(const Val& v) { Nest n; n.r = record(v[0]); n.z = v.n(1); n.l = list(v[2]); return n; }
    Val show(const Record& r) { return Val::t(r.a, codes(r.b), some(r.c)); }
    template <class T> Val relations(const T& x, const T& y)
    {
        const int eq = x == y, less = x < y, greater = x > y;
        if (awl::objects_equal(x, y) != bool(eq) || awl::objects_less(x, y) != bool(less) || awl::objects_greater(x, y) != bool(greater)) return Val("the functions disagree with the operators");
        return Val::t(eq, int(x != y), less, greater, int(x <= y), int(x >= y));
    }
    template <class T> Val hashes(const T& x, const T& y)
    {
        std::hash<T> h; T z = x;
        if (h(z) != h(x) || h(x) != h(x)) return Val("the hash of a copy differs");
        if (h(x) != awl::GetTupleHash(awl::object_as_tuple(x)) || h(x) != awl::GetTupleHash(x.as_const_tuple())) return Val("the hash of the tuple differs");
        std::unordered_set<T> s; s.insert(x); if (!s.count(z)) return Val("not found in a hash table");
        if (s.count(y) != size_t(x == y)) return Val("found in a hash table");
        return Val(int(h(x) == h(y)));
    }
    Val wrap(int x) { return Val::t(x); } Val wrap(const std::string& s) { return codes(s); } Val wrap(const std::optional<int>& o) { return some(o); }
    struct Base { virtual ~Base() = default; virtual int id() const = 0; };
    template <size_t I> struct Node : Base { Node(int x = 0) : x(x) {} int x; int id() const override { return int(I) * 10 + x; } };
    template <class T> struct Holder { Holder() = default; explicit Holder(const T& v) : v(v) {} T v{}; };

    struct Sut : vk::Sut
    {
        Record cur;
        Val visit()
        {
            Val a, b, c, d, e; const Record& k = cur;
            auto t = cur.as_tuple(); const auto u = awl::object_as_tuple(cur); auto w = awl::object_as_tuple(k);
            awl::for_each_index(t, [&](auto& f, size_t i) { a.push(Val::t(int(i), wrap(f))); });
            awl::for_each_index(u, [&](const auto& f, auto i) { b.push(Val::t(int(size_t(i)), wrap(f))); });
            int n = 0; awl::for_each(w, [&](const auto& f) { c.push(Val::t(n++, wrap(f))); });
            n = 0; awl::for_each(u, [&](const auto& f) { d.push(Val::t(n++, wrap(f))); });
            std::tuple<int, std::string, std::optional<int>> own(cur.a, cur.b, cur.c);
            n = 0; awl::for_each(own, [&](auto& f) { e.push(Val::t(n++, wrap(f))); });
            if (a.str() != b.str() || a.str() != c.str() || a.str() != d.str() || a.str() != e.str()) return Val("visited in different ways: " + a.str() + b.str() + c.str() + d.str() + e.str());
            return a;
        }
        static size_t size(int) { return 1; } static size_t size(const std::string& s) { return s.size(); } static size_t size(const std::optional<int>& o) { return o ? 1 : 0; }
        Val sizes()
        {
            auto f = [](const auto& x) { return size(x); };
            auto t = cur.as_tuple(); const auto u = cur.as_const_tuple();
            auto x = awl::transform_tuple(t, f), y = awl::transform_tuple(u, f); auto z = awl::tuple_to_array(t, f), w = awl::tuple_to_array(u, f);
            if (x != y || z != w || std::get<0>(x) != z[0] || std::get<1>(x) != z[1] || std::get<2>(x) != z[2]) return Val("transformed in different ways");
            // every member in its own object
            std::tuple<int, std::string, std::optional<int>> own(cur.a, cur.b, cur.c);
            auto h = awl::transform_t2t<Holder>(own);
            if (std::get<0>(h).v != cur.a || std::get<1>(h).v != cur.b || std::get<2>(h).v != cur.c) return Val("transformed to other values");
            return Val::t(int(z[0]), int(z[1]), int(z[2]));
        }
        Val getters()
        {
            auto a = awl::make_getter(&Record::a); auto b = awl::make_getter(&Record::b); auto c = awl::make_getter(&Record::c); auto f = awl::make_getter(&Record::first);
            awl::getter<&Record::a> ga; awl::getter<&Record::b> gb; awl::getter<&Record::c> gc; awl::getter<&Record::first> gf;
            awl::tuplizable_getter<Record, 0> t0; awl::tuplizable_getter<Record, 1> t1; awl::tuplizable_getter<Record, 2> t2;
            const Record& k = cur;
            if (&b(k) != &k.b || &gb(k) != &k.b || &t1(k) != &k.b || &c(k) != &k.c || &a(k) != &k.a) return Val("a getter copies");
            if (a(k) != f(k) || ga(k) != gf(k) || ga(k) != a(k) || t0(k) != a(k) || gc(k) != c(k) || t2(k) != c(k) || gb(k) != b(k)) return Val("the getters differ");
            Record* p = &cur; auto s = std::make_shared<Record>(cur); auto u = std::make_unique<Record>(cur); const auto cs = s;
            if (awl::object_address(p) != &cur || awl::object_address(cur) != &cur || awl::object_address(s) != s.get() || awl::object_address(cs) != s.get() || awl::object_address(u) != u.get()) return Val("a wrong address");
            return Val::t(a(k), codes(b(k)), some(c(k)));
        }
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "compare") return relations(record(o[1]), record(o[2]));
            if (op == "nested") return relations(nest(o[1]), nest(o[2]));
            if (op == "plain")
            {
                Plain x{ o.n(1), text(o[2]) }, y{ o.n(3), text(o[4]) };
                const int eq = awl::objects_equal(x, y), less = awl::objects_less(x, y), greater = awl::objects_greater(x, y);
                return Val::t(eq, 1 - eq, less, greater, int(less || eq), int(greater || eq));
            }
            if (op == "hash") { Nest x = nest(o[1]), y = nest(o[2]); Val v = hashes(x.r, y.r); if (v.kind == Val::Str) return v; return hashes(x, y); }
            if (op == "hashlist")
            {
                auto x = list(o[1]), y = list(o[2]); std::hash<std::vector<int>> h;
                Val v = hashes(Single{ x }, Single{ y }); if (v.kind == Val::Str || v.i != (h(x) == h(y))) return Val("the hash of a list as a member differs: " + v.str());
                return int(h(x) == h(y));
            }
            if (op == "assign") { Record x = record(o[1]); awl::object_as_tuple(cur) = x.as_const_tuple(); return show(cur); }
            if (op == "member")
            {
                auto t = cur.as_tuple();
                switch (o.n(1)) { case 0: std::get<0>(t) = o[2].n(0); break; case 1: std::get<1>(t) = text(o[2]); break; default: std::get<2>(t) = opt(o[2]); }
                return show(cur);
            }
            if (op == "add")
            {
                const int n = o.n(1);
                struct F { int n; void operator()(int& x) { x += n; } void operator()(std::string& s) { s += (char)n; } void operator()(std::optional<int>& c) { if (c) *c += n; } };
                awl::for_each(awl::object_as_tuple(cur), F{ n }); return show(cur);
            }
            if (op == "visit") return visit();
            if (op == "sizes") return sizes();
            if (op == "getters") return getters();
            if (op == "universal")
            {
                int x = o.n(1), y = o.n(2); const int before = x;
                auto t = awl::make_universal_tuple(x, int(y), std::as_const(y));
                static_assert(std::is_same_v<decltype(t), std::tuple<int&, int, const int&>>);
                std::get<0>(t) = o.n(2); const int x2 = x; y = o.n(3);
                return Val::t(before, Val::t(x2, y, std::get<1>(t)));   // the last one is the copy
            }
            // types
            using T = std::tuple<int, std::string, double>; using V = std::variant<int, std::string, double>;
            auto arr = [](auto a) { Val v; for (auto i : a) v.push((int)i); return v; };
            if (arr(awl::map_types_t2v<std::tuple<double, int, std::string>, V>()).str() != arr(awl::map_types_t2t<std::tuple<double, int, std::string>, T>()).str()) return Val("variants and tuples differ");
            auto n = awl::transform_v2ti<std::variant<int, char>, Node>(); auto p = awl::tuple_cast<Base>(n); const auto& cn = n;
            std::get<1>(n).x = 3; if (p.size() != 2 || p[0]->id() != 0) return Val("a wrong base"); if (awl::tuple_cast<const Base>(cn)[1]->id() != 13) return Val("a wrong base");
            if (std::get<1>(awl::transform_t2ti<Node>(std::make_tuple(4, 5))).id() != 15) return Val("a wrong index");
            auto h = awl::transform_v2t<V, Holder>(); static_assert(std::is_same_v<decltype(h), std::tuple<Holder<int>, Holder<std::string>, Holder<double>>>);
            if (awl::sizeof_tuple(std::tuple<int, char, double>{}) != sizeof(int) + 1 + sizeof(double)) return Val("a wrong size");
            auto f = [](int, const std::string&, double) -> char { return 'x'; }; using FT = awl::function_traits<decltype(f)>;
            static_assert(FT::arity == 3 && std::is_same_v<FT::result_type, char> && std::is_same_v<FT::arg<0>::type, int> && std::is_same_v<FT::arg<1>::type, const std::string&> && std::is_same_v<FT::arg<2>::type, double>);
            return Val::t(Val::t((int)awl::find_variant_type_v<int, V>, (int)awl::find_tuple_type_v<std::string&, T>, (int)awl::find_variant_type_v<double&, V>),
                arr(awl::map_types_t2v<std::tuple<double, int, std::string>, V>()), arr(awl::map_types_t2t<std::tuple<std::string, double, int>, T>()), p[1]->id());
        }
        static Val number(Rng& r) { return vk::rnd(r, 3) ? vk::rnd(r, 3) : vk::rnd(r, 2000000) - 1000000; }
        static Val txt(Rng& r) { Val v; for (int n = vk::rnd(r, 4); n > 0; --n) v.push(vk::rnd(r, 4) ? 1 + vk::rnd(r, 2) : 1 + vk::rnd(r, 126)); return v; }
        static Val numbers(Rng& r, int n) { Val v; for (; n > 0; --n) v.push(number(r)); return v; }
        static Val rec(Rng& r) { return Val::t(number(r), txt(r), numbers(r, vk::rnd(r, 2))); }
        static Val nst(Rng& r) { return Val::t(rec(r), number(r), numbers(r, vk::rnd(r, 4))); }
        template <class F> static std::pair<Val, Val> two(Rng& r, F f)
        {
            Val x = f(r), y = f(r), z = f(r);
            if (vk::rnd(r, 2)) return { x, y };
            y = x; if (vk::rnd(r, 2)) { size_t i = vk::rnd(r, (int)x.size()); y.a[i] = z[i]; }
            return { x, y };
        }
        Val random_op(Rng& r) override
        {
            switch (vk::rnd(r, 12))
            {
            case 0: case 1: { auto [x, y] = two(r, rec); return Val::t("compare", x, y); }
            case 2: { auto [x, y] = two(r, nst); return Val::t("nested", x, y); }
            case 3: { auto [x, y] = two(r, nst); return Val::t("hash", x, y); }
            case 4: { Val x = numbers(r, vk::rnd(r, 5)), y = x; if (vk::rnd(r, 2)) std::reverse(y.a.begin(), y.a.end()); return Val::t("hashlist", x, y); }
            case 5: return Val::t("assign", rec(r));
            case 6: { int i = vk::rnd(r, 3); return Val::t("member", i, i == 0 ? numbers(r, 1) : i == 1 ? txt(r) : numbers(r, vk::rnd(r, 2))); }
            case 7: return cur.b.size() < 10 ? Val::t("add", 1 + vk::rnd(r, 3)) : Val::t("visit");
            case 8: return Val::t("visit");
            case 9: return Val::t("sizes");
            case 10: return Val::t("getters");
            default: return Val::t("universal", number(r), number(r), number(r));
            }
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
