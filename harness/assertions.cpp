// C58: assertions of tests and attributes against spec/Assertions.tla. -DPROVIDED: only the second translation unit's functions.
#include "vk.h"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/Formatter.h"
#include "Awl/Testing/LocalAttribute.h"
using vk::Val;
using namespace awl::testing;
namespace
{
    int g_count = 0;
    template <class T> T once(T x) { ++g_count; return x; }
    struct Derived : TestException { using TestException::TestException; };
    struct Own : awl::Exception {};
    template <class F> void with_class(int k, F f)
    {
        switch (k)
        {
        case 1: f.template operator()<std::exception>(); break; case 2: f.template operator()<awl::Exception>(); break;
        case 3: f.template operator()<awl::GeneralException>(); break; case 4: f.template operator()<TestException>(); break;
        case 5: f.template operator()<std::logic_error>(); break; case 6: f.template operator()<std::out_of_range>(); break;
        case 7: f.template operator()<std::runtime_error>(); break; case 8: f.template operator()<Derived>(); break;
        default: f.template operator()<int>();
        }
    }
    void throw_it(int k)
    {
        switch (k)
        {
        case 0: return; case 1: throw std::exception(); case 2: throw Own(); case 3: throw awl::GeneralException("x"); case 4: throw TestException("own");
        case 5: throw std::logic_error("x"); case 6: throw std::out_of_range("x"); case 7: throw std::runtime_error("x"); case 8: throw Derived("own"); default: throw 5;
        }
    }
    const std::string g_given = "What was expected here";
    std::string g_class, g_place, g_condition, g_expected, g_actual;
    template <class T> T value(int kind, int k);
    template <> int value(int, int k) { static const int v[] = { 0, 1, -2147483647 - 1, 2147483647 }; return v[k]; }
    template <> std::string value(int, int k) { static const char* const v[] = { "", "a", "b", "a b, c" }; return v[k]; }
    template <> char value(int, int k) { return "abcz"[k]; }
    template <> double value(int, int k) { static const double v[] = { 0, 0.5, -1.25, 100 }; return v[k]; }
    template <> size_t value(int, int k) { static const size_t v[] = { 0, 1, 4294967296, ~size_t(0) }; return v[k]; }
    template <class T> std::string printed(const T& x) { std::ostringstream s; s << x; return s.str(); }
#define HERE(x) (g_place = std::string(__FILE__) + ":" + std::to_string(__LINE__), x)
    template <class T> void equal(int f, int kind, int e, int a)
    {
        const T x = value<T>(kind, e), y = value<T>(kind, a); g_expected = printed(x); g_actual = printed(y);
        switch (f)
        {
        case 0: Assert::AreEqual(once(x), once(y)); break;
        case 1: Assert::AreEqual(once(x), once(y), g_given.c_str()); break;
        case 2: g_condition = "once(y)"; HERE(0); AWT_ASSERT_EQUAL(once(x), once(y)); break;
        default: g_condition = "once(y)"; HERE(0); AWT_ASSERTM_EQUAL(once(x), once(y), "What was expected here");
        }
    }
    void assertion(const Val& v)
    {
        const std::string& op = v.name(); g_condition = "once(x)";
        if (op == "throws") { const int x = v.n(2); with_class(v.n(1), [&]<class E>() { g_class = typeid(E).name(); Assert::Throws<E>([x] { ++g_count; throw_it(x); }); }); return; }
        const int f = v.n(1);
        if (op == "fail")
        {
            switch (f) { case 0: Assert::Fail(); case 1: Assert::Fail(g_given); case 2: HERE(0); AWT_FAIL; default: HERE(0); AWT_FAILM(What was expected here); }
        }
        if (op == "equal")
        {
            switch (v.n(2))
            {
            case 1: return equal<int>(f, 1, v.n(3), v.n(4)); case 2: return equal<std::string>(f, 2, v.n(3), v.n(4)); case 3: return equal<char>(f, 3, v.n(3), v.n(4));
            case 4: return equal<double>(f, 4, v.n(3), v.n(4)); default: return equal<size_t>(f, 5, v.n(3), v.n(4));
            }
        }
        const bool x = v.n(2);
        if (op == "true")
        {
            switch (f)
            {
            case 0: Assert::IsTrue(once(x)); break; case 1: Assert::IsTrue(once(x), g_given.c_str()); break;
            case 2: HERE(0); AWT_ASSERT(once(x)); break;
            default: if (g_count % 2) { HERE(0); AWT_ASSERTM(once(x), "What was expected here"); } else { HERE(0); AWT_ASSERTM_TRUE(once(x), "What was expected here"); }
            }
        }
        else
        {
            switch (f)
            {
            case 0: Assert::IsFalse(once(x)); break; case 1: Assert::IsFalse(once(x), g_given.c_str()); break;
            case 2: HERE(0); AWT_ASSERT_FALSE(once(x)); break;
            default: HERE(0); AWT_ASSERTM_FALSE(once(x), "What was expected here");
            }
        }
    }
    // What the message contains, in the order in which it says it.
    Val said(const Val& a, const std::string& m)
    {
        std::vector<std::pair<const char*, std::string>> parts;
        const std::string& op = a.name(); const int f = op == "throws" ? 0 : a.n(1);
        if (op == "throws") parts = { { "class", g_class } };
        else
        {
            if (f >= 2 && op != "fail") parts.push_back({ "expression", g_condition });
            if (f % 2) parts.push_back({ "given message", g_given });
            if (f >= 2) parts.push_back({ "place", g_place });
            if (op == "equal") { parts.push_back({ "expected", g_expected }); parts.push_back({ "actual", g_actual }); }
        }
        Val v; size_t at = 0; if (m.empty()) v.push("no message");
        for (auto& [n, t] : parts)
        {
            // The values stand after their names.
            if (std::string(n) == "expected" || std::string(n) == "actual") { at = m.find(n, at); if (at == std::string::npos) break; at += std::strlen(n); }
            size_t k = m.find(t, at); if (k == std::string::npos) break;
            at = k + t.size(); v.push(n);
        }
        return v;
    }
    int class_of(const std::exception& e)
    {
        if (dynamic_cast<const Derived*>(&e)) return 8;
        if (dynamic_cast<const TestException*>(&e)) return 4;
        if (dynamic_cast<const awl::GeneralException*>(&e)) return 3;
        if (dynamic_cast<const awl::Exception*>(&e)) return 2;
        if (dynamic_cast<const std::out_of_range*>(&e)) return 6;
        if (dynamic_cast<const std::logic_error*>(&e)) return 5;
        if (dynamic_cast<const std::runtime_error*>(&e)) return 7;
        return 1;
    }
    Val body(const Val& b)
    {
        int i = 0; g_count = 0;
        try { for (; i < (int)b.size(); ++i) assertion(b[i]); }
        catch (const TestException& e)
        {
            if (e.What() == "own") return Val::t(Val::t("thrown", i + 1, class_of(e)), g_count);      // not of an assertion
            return Val::t(Val::t("failed", i + 1, said(b[i], e.What())), g_count);
        }
        catch (const std::exception& e) { return Val::t(Val::t("thrown", i + 1, class_of(e)), g_count); }
        catch (int) { return Val::t(Val::t("thrown", i + 1, 9), g_count); }
        return Val::t(Val::t("passed"), g_count);
    }
    std::string text(const Val& v) { std::string s; for (auto& c : v.a) s += (char)c.i; return s; }
    Val codes(const std::string& s) { Val v; for (char c : s) v.push((int)(unsigned char)c); return v; }
    struct Provider : AttributeProvider
    {
        std::string name, value; bool given; mutable bool asked = false;
        bool TryFind(const awl::String& n, awl::String& v) const override { asked = n == name; if (given) v = value; return given; }
    };
    // A parser that looks at an attribute before it gets the value.
    template <class T> struct Attribute : LocalAttribute<T>
    {
        using LocalAttribute<T>::LocalAttribute;
    };
    template <class F> Val with_type(const std::string& t, F f)
    {
        if (t == "int") return f.template operator()<int>(); if (t == "long") return f.template operator()<long>();
        if (t == "llong") return f.template operator()<long long>(); if (t == "unsigned") return f.template operator()<unsigned>();
        if (t == "ulong") return f.template operator()<unsigned long>(); if (t == "ullong") return f.template operator()<unsigned long long>();
        if (t == "float") return f.template operator()<float>(); if (t == "double") return f.template operator()<double>(); if (t == "ldouble") return f.template operator()<long double>();
        if (t == "string") return f.template operator()<std::string>(); if (t == "ints") return f.template operator()<std::vector<int>>();
        if (t == "words") return f.template operator()<std::vector<std::string>>(); if (t == "set") return f.template operator()<std::set<std::string>>();
        throw std::runtime_error(t);
    }
    struct Sut : vk::Sut
    {
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "body") return body(o[1]);
            if (op == "again") return with_type(o[1].s, [&]<class T>() { return codes(Formatter<T>::ToString(Formatter<T>::FromString(text(o[2])))); });
            if (op == "quarters") return with_type(o[1].s, [&]<class T>() -> Val
            {
                if constexpr (std::is_floating_point_v<T>) return Val((long long)(Formatter<T>::FromString(Formatter<T>::ToString(T(o[2].i) / 4)) * 4));
                else return Val("type");
            });
            Provider p; p.name = "option"; p.given = op == "malformed" || o.n(1) == 1; p.value = text(o[2]);
            if (op == "attribute") return with_type(o[4].s, [&]<class T>() -> Val
            {
                LocalAttribute<T> a(p, "some type", "option", Formatter<T>::FromString(text(o[3])));
                if (!p.asked || a.GetName() != p.name || a.GetTypeName() != "some type") return Val("another name");
                return Val::t(codes(Formatter<T>::ToString(a.GetValue())), codes(a.GetDefaultValue()));
            });
            return with_type(o[1].s, [&]<class T>() -> Val
            {
                try { LocalAttribute<T> a(p, "some type", "option", T()); return Val::t("accepted"); }
                catch (const TestException& e)
                {
                    const std::string m = e.What(); const size_t n = m.find("'option'"); if (n == std::string::npos) return Val::t("failed", Val::t());
                    return Val::t("failed", m.find("'" + p.value + "'", n + 1) == std::string::npos ? Val::t("name") : Val::t("name", "value"));
                }
            });
        }
        Val random_op(vk::Rng& r) override
        {
            auto one = [&]() -> Val
            {
                const int f = vk::rnd(r, 4);
                switch (vk::rnd(r, 8))
                {
                case 0: return Val::t("fail", f);
                case 1: case 2: return Val::t("equal", f, 1 + vk::rnd(r, 5), vk::rnd(r, 4), vk::rnd(r, 4));
                case 3: { int e = vk::rnd(r, 4), k = 1 + vk::rnd(r, 5); return Val::t("equal", f, k, e, e); }
                case 4: return Val::t("throws", 1 + vk::rnd(r, 9), vk::rnd(r, 10));
                case 5: return Val::t("throws", 1, 1 + vk::rnd(r, 8));
                case 6: return Val::t("true", f, vk::rnd(r, 5) != 0);
                default: return Val::t("false", f, vk::rnd(r, 5) == 0);
                }
            };
            Val b; for (int k = vk::rnd(r, 9); k > 0; --k) { Val a = one(); for (auto& x : a.a) if (x.kind == Val::Bool) x.kind = Val::Int; b.push(a); }
            return Val::t("body", b);
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
