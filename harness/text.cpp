// C53: texts against spec/Text.tla.
#include "vk.h"
#include "Awl/String.h"
#include "Awl/StringFormat.h"
#include "Awl/FixedString.h"
#include "Awl/Separator.h"
#include "Awl/ConsoleLogger.h"
#include "Awl/Exception.h"
#include <clocale>
#include <map>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
using vk::Val; using vk::Rng;
static bool g_fixed_clock = false; static timespec g_now{};
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    if (g_fixed_clock && id == CLOCK_REALTIME) { *t = g_now; return 0; }
    return (int)syscall(SYS_clock_gettime, id, t);
}
namespace
{
    template <class C> Val codes(const std::basic_string<C>& s) { Val v; for (C c : s) v.push((int)std::make_unsigned_t<C>(c)); return v; }
    Val codes(const std::wstring& s) { Val v; for (wchar_t c : s) v.push((int)c); return v; }
    template <class C = char> std::basic_string<C> text(const Val& v) { std::basic_string<C> s; for (auto& x : v.a) s += (C)x.i; return s; }
    int sgn(int x) { return (x > 0) - (x < 0); }
    template <class C, size_t N> awl::fixed_string<C, N> fixed(const std::basic_string<C>& s)
    {
        C a[N + 1]; for (size_t i = 0; i <= N; ++i) a[i] = i < N ? s[i] : 0; return awl::fixed_string<C, N>(a);
    }
    template <class C, size_t N, size_t M> Val both(const std::basic_string<C>& x, const std::basic_string<C>& y)
    {
        const auto a = fixed<C, N>(x); auto b = fixed<C, M>(y); auto s = a + b;
        static_assert(std::is_same_v<decltype(s), awl::fixed_string<C, N + M>>);
        const std::basic_string<C> t = s; const std::basic_string_view<C> w = s;
        if (t.size() != N + M || w != t || s.c_str() != t || std::basic_string<C>(s.begin(), s.end()) != t || s.data()[s.size()] != 0 || s.size() != N + M) return Val("the conversions differ");
        const bool eq = a == b; if (eq == (a != b) || eq != (b == a)) return Val("== and != agree");
        auto c = a; if (!(c == a)) return Val("a copy differs"); c = fixed<C, N>(x); if (c != a) return Val("an equal one differs");
        for (size_t i = 0; i < N; ++i)
        {
            if (a[i] != x[i]) return Val("a wrong character");
            auto d = a; d[i] = C(d[i] + 1); if (d == a || !(d != a)) return Val("another one is equal");
        }
        std::basic_ostringstream<C> out; if constexpr (std::is_same_v<C, char>) { using awl::operator<<; out << s; if (out.str() != t) return Val("printed differently"); }
        return Val::t(codes(t), int(eq));
    }
    template <class C> Val both(const std::basic_string<C>& x, const std::basic_string<C>& y)
    {
        Val r("too long");
        auto one = [&]<size_t N>() { auto two = [&]<size_t M>() { if (x.size() == N && y.size() == M) r = both<C, N, M>(x, y); };
            two.template operator()<0>(); two.template operator()<1>(); two.template operator()<2>(); two.template operator()<3>(); two.template operator()<5>(); };
        one.template operator()<0>(); one.template operator()<1>(); one.template operator()<2>(); one.template operator()<3>(); one.template operator()<5>();
        return r;
    }
    Val thrown() { return Val::t("thrown"); }
    // All the ways of conversion must agree
    template <class... F> Val agree(F... f)
    {
        Val r; bool first = true, bad = false;
        auto one = [&](auto g) { Val v; try { v = Val::t("ok", codes(g())); } catch (const std::exception&) { v = thrown(); } if (first) r = v; else if (v.str() != r.str()) bad = true; first = false; };
        (one(f), ...);
        return bad ? Val("the conversions differ") : r;
    }
    template <class C> std::basic_string<C> ascii(const char* s) { std::basic_string<C> r; while (*s) r += (C)*s++; return r; }
    template <class C> Val join(int kind, const Val& sep, const Val& items, bool more)
    {
        std::basic_ostringstream<C> out; awl::basic_separator<C> s = kind == 0 ? awl::basic_separator<C>(C(sep.n(0))) : awl::basic_separator<C>(text<C>(sep));
        if (!s.first()) return Val("not at the first");
        if (more) { s.hlop(); if (s.first()) return Val("still at the first"); }
        for (auto& i : items.a) { out << s; if (s.first()) return Val("still at the first"); out << text<C>(i); }
        if (s.content() != (kind == 0 ? std::basic_string<C>(1, C(sep.n(0))) + C(' ') : text<C>(sep))) return Val("another content");
        return codes(out.str());
    }
    template <class C, class T> Val optional(const std::optional<T>& v)
    {
        using awl::operator<<;
        std::basic_ostringstream<C> a, b, c; a << v; b << std::optional<std::optional<T>>(v); c << std::optional<std::optional<T>>();
        if (c.str() != ascii<C>("empty") || b.str() != a.str()) return Val("nested ones are printed differently");
        return codes(a.str());
    }
    template <class C> Val format(const Val& p)
    {
        awl::basic_format<C> f;
        for (auto& x : p.a)
        {
            const std::string& k = x[0].s;
            if (k == "number") f << x.n(1); else if (k == "code") f << C(x.n(1));
            else if (k == "text") { const auto s = text<C>(x[1]); f << s.c_str(); }
            else if (k == "string") f << text<C>(x[1]); else f << (x[1].size() ? std::optional<int>(x[1].n(0)) : std::optional<int>());
        }
        const std::basic_string<C> a = f, b = f.str(); if (a != b) return Val("the results differ");
        if constexpr (std::is_same_v<C, char>) { if (awl::LogString(f).str() != a) return Val("the message differs"); }
        return codes(a);
    }
    using U = __uint128_t; using I = __int128_t;
    U number(const Val& d) { U n = 0; for (auto& x : d.a) n = n * 10 + U(x.i - 48); return n; }
    template <class C, class T> std::basic_string<C> print(T n, int w = 0, int f = 32, bool left = false)
    {
        using awl::operator<<;
        std::basic_ostringstream<C> out; out << ascii<C>("<"); if (left) out << std::left; out << std::setfill(C(f)) << std::setw(w); out << n; out << ascii<C>(">");
        auto s = out.str(); if (s.size() < 2 || s.front() != C('<') || s.back() != C('>')) return ascii<C>("bad"); return s.substr(1, s.size() - 2);
    }
    template <class F> Val wide(F f) { Val a = f(char()), b = f(wchar_t()); return a.str() == b.str() ? a : Val("wide: " + b.str() + ", narrow: " + a.str()); }
    struct TestLogger : awl::Logger { awl::LogLevel level; awl::String message; int n = 0; void log(awl::LogLevel l, awl::LogString m) override { level = l; message = m.str(); ++n; } };
    void to(awl::Logger& l, int level, const awl::LogString& m) { switch (level) { case 0: l.debug(m); break; case 1: l.trace(m); break; case 2: l.info(m); break; case 3: l.warning(m); break; default: l.error(m); } }

    AWL_DEFINE_EXCEPTION(FirstException)
    AWL_DEFINE_DERIVED_EXCEPTION(SecondException, FirstException)
    template <class E, class B> std::string raise(const std::string& m)
    {
        try { throw E(m); }
        catch (const B& e)
        {
            const awl::Exception& x = e; const std::exception& y = e;
            if (x.GetClassName() != y.what() || std::string(y.what()) != typeid(E).name()) return "another class";
            return x.What();
        }
    }
    struct Sut : vk::Sut
    {
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "compare") return wide([&](auto c) {
                using C = decltype(c); const auto x = text<C>(o[1]), y = text<C>(o[2]); awl::CStringLess<C> less; awl::StringEqual<C> eq;
                const int k = sgn(awl::StrCmp(x.c_str(), y.c_str())), l = less(x.c_str(), y.c_str()), g = less(y.c_str(), x.c_str()), e = eq(x, y);
                if (k != g - l || e != (k == 0) || less(x.c_str(), x.c_str())) return Val("the comparisons differ");
                std::map<const C*, int, awl::CStringLess<C>> m; m[x.c_str()] = 1; if (m.count(y.c_str()) != size_t(e)) return Val("found in a map");
                return Val::t(Val::t(l, g, e), (int)awl::StrLen(x.c_str())); });
            if (op == "insensitive") return wide([&](auto c) {
                using C = decltype(c); const auto x = text<C>(o[1]), y = text<C>(o[2]); awl::CStringInsensitiveLess<C> less; awl::StringInsensitiveEqual<C> eq; awl::CharInsensitiveEqual<C> ch;
                const int e = eq(x, y); if (x.size() == 1 && y.size() == 1 && ch(x[0], y[0]) != bool(e)) return Val("the characters are compared differently");
                return Val::t(int(less(x.c_str(), y.c_str())), int(less(y.c_str(), x.c_str())), e); });
            if (op == "encode")
            {
                const std::wstring w = text<wchar_t>(o[1]);
                if (awl::StringConvertor<wchar_t>::Encode(w.c_str()) != w) return Val("a wide text is changed");
                return agree([&] { return awl::EncodeString(w.c_str()); }, [&] { return awl::StringConvertor<char>::Encode(w.c_str()); }, [&] { return awl::StringConvertor<wchar_t>::EncodeToA(w.c_str()); },
                    [&] { return awl::FromWCString(w.c_str()); }, [&] { return awl::FromWString(w); }, [&] { return awl::LogString(w).str(); }, [&] { return awl::LogString(w.c_str()).str(); });
            }
            if (op == "decode")
            {
                const std::string s = text(o[1]);
                if (awl::StringConvertor<char>::Decode(s.c_str()) != s || awl::StringConvertor<char>::EncodeToA(s.c_str()) != s || awl::FromACString(s.c_str()) != s || awl::FromAString(s) != s || awl::ToAString(s) != s
                    || awl::LogString(s).str() != s || awl::LogString(s.c_str()).str() != s) return Val("a narrow text is changed");
                auto out = [&](const auto& x) { using awl::operator<<; std::wostringstream o; o << x; return o.str(); };
                return agree([&] { return awl::DecodeString(s.c_str()); }, [&] { return awl::StringConvertor<wchar_t>::Decode(s.c_str()); }, [&] { return out(s); }, [&] { std::wostringstream o; awl::operator<<(o, s.c_str()); return o.str(); });
            }
            if (op == "fixed") return wide([&](auto c) { using C = decltype(c); return both<C>(text<C>(o[1]), text<C>(o[2])); });
            if (op == "join") return wide([&](auto c) { return join<decltype(c)>(o.n(1), o[2], o[3], false); });
            if (op == "joinmore") return wide([&](auto c) { return join<decltype(c)>(1, o[1], o[2], true); });
            if (op == "optional") return wide([&](auto c) { return optional<decltype(c)>(o[1].size() ? std::optional<int>(o[1].n(0)) : std::nullopt); });
            if (op == "optionaltext") return wide([&](auto c) { using C = decltype(c); return optional<C>(o[1].size() ? std::optional<std::basic_string<C>>(text<C>(o[1][0])) : std::nullopt); });
            if (op == "format") return wide([&](auto c) { return format<decltype(c)>(o[1]); });
            if (op == "unsigned") return wide([&](auto c) { return codes(print<decltype(c)>(number(o[1]), o.n(2), o.n(3), o.n(4))); });
            if (op == "signed") return wide([&](auto c) { U n = number(o[2]); return codes(print<decltype(c)>(I(o.n(1) ? U(0) - n : n))); });
            if (op == "log")
            {
                const std::string m = text(o[5]); awl::ostringstream out; awl::ConsoleLogger log(out); TestLogger test; awl::Logger& l = log;
                g_now = { time_t(o.n(1)) * 86400 + o.n(2), o.n(3) }; g_fixed_clock = true; to(l, o.n(4), m); g_fixed_clock = false;
                to(test, o.n(4), m); if (test.n != 1 || test.level != awl::LogLevel(o.n(4)) || test.message != m) return Val("another message");
                return codes(out.str());
            }
            if (op == "exception")
            {
                const std::string m = text(o[1]), a = raise<SecondException, FirstException>(m), b = raise<FirstException, awl::GeneralException>(m), c = raise<SecondException, awl::Exception>(m);
                return a == b && a == c ? codes(a) : Val("another message");
            }
            return Val("?");
        }
        static Val word(Rng& r, int n, int lim) { Val v; for (int k = vk::rnd(r, n + 1); k > 0; --k) v.push(vk::rnd(r, 2) ? 97 + 32 * -vk::rnd(r, 2) + vk::rnd(r, 3) : 1 + vk::rnd(r, lim)); return v; }
        static Val change(Rng& r, Val v, int lim)
        {
            if (v.size() && vk::rnd(r, 2)) { size_t i = vk::rnd(r, (int)v.size()); if (vk::rnd(r, 2)) v.a[i] = 1 + vk::rnd(r, lim); else if (v.n(i) >= 65) v.a[i] = v.n(i) ^ 32; if (v.n(i) < 1 || v.n(i) > lim) v.a[i] = 65; }
            if (!vk::rnd(r, 3)) v.push(1 + vk::rnd(r, lim)); else if (v.size() && !vk::rnd(r, 3)) v.a.pop_back();
            return v;
        }
        static int code(Rng& r) { switch (vk::rnd(r, 5)) { case 0: return 1 + vk::rnd(r, 127); case 1: return 128 + vk::rnd(r, 1920); case 2: return 2048 + vk::rnd(r, 53248); case 3: return 57344 + vk::rnd(r, 8192); default: return 65536 + vk::rnd(r, 1048576); } }
        static Val bytes(Rng& r)
        {
            Val v;
            for (int n = vk::rnd(r, 8); n > 0; --n)
            {
                const int c = code(r); auto b = [&](int x) { v.push(x); };
                if (c < 128) b(c); else if (c < 2048) b(192 + c / 64), b(128 + c % 64); else if (c < 65536) b(224 + c / 4096), b(128 + c / 64 % 64), b(128 + c % 64);
                else b(240 + c / 262144), b(128 + c / 4096 % 64), b(128 + c / 64 % 64), b(128 + c % 64);
            }
            if (v.size() && !vk::rnd(r, 3)) { size_t i = vk::rnd(r, (int)v.size()); switch (vk::rnd(r, 3)) { case 0: v.a[i] = 1 + vk::rnd(r, 255); if (v.n(i) >= 244) v.a[i] = 255; break; case 1: v.a.erase(v.a.begin() + i); break; default: v.a.pop_back(); } }
            for (auto& x : v.a) if (x.i == 244) x = 243;   // beyond the last code point the library is lenient
            return v;
        }
        static Val digits(Rng& r, int max) { Val v; v.push(49 + vk::rnd(r, 9)); for (int n = vk::rnd(r, max); n > 1; --n) v.push(48 + vk::rnd(r, 10)); return v; }
        Val random_op(Rng& r) override
        {
            switch (vk::rnd(r, 13))
            {
            case 0: { Val x = word(r, 10, 255); return Val::t("compare", x, change(r, x, 255)); }
            case 1: { Val x = word(r, 10, 127); return Val::t("insensitive", x, change(r, x, 127)); }
            case 2: { Val v; for (int n = vk::rnd(r, 8); n > 0; --n) v.push(vk::rnd(r, 40) ? code(r) : 55296 + vk::rnd(r, 2048)); return Val::t("encode", v); }
            case 3: return Val::t("decode", bytes(r));
            case 4: { static const int len[] = { 0, 1, 2, 3, 5 }; Val x, y; for (int n = len[vk::rnd(r, 5)]; n > 0; --n) x.push(vk::rnd(r, 255) + 1); y = x; if (vk::rnd(r, 3)) { y = Val::t(); for (int n = len[vk::rnd(r, 5)]; n > 0; --n) y.push(vk::rnd(r, 255) + 1); } return Val::t("fixed", x, y); }
            case 5: case 6: { Val items; for (int n = vk::rnd(r, 6); n > 0; --n) items.push(word(r, 3, 127)); if (vk::rnd(r, 3) == 0) return Val::t("joinmore", word(r, 3, 127), items); const int k = vk::rnd(r, 2); return Val::t("join", k, k ? word(r, 3, 127) : Val::t(1 + vk::rnd(r, 127)), items); }
            case 7: return vk::rnd(r, 2) ? Val::t("optional", vk::rnd(r, 4) ? Val::t(int(r())) : Val::t()) : Val::t("optionaltext", vk::rnd(r, 4) ? Val::t(word(r, 5, 127)) : Val::t());
            case 8: case 9:
            {
                Val p;
                for (int n = vk::rnd(r, 6); n > 0; --n) switch (vk::rnd(r, 5)) { case 0: p.push(Val::t("number", vk::rnd(r, 2000000) - 1000000)); break; case 1: p.push(Val::t("code", 1 + vk::rnd(r, 127))); break; case 2: p.push(Val::t("text", word(r, 5, 127))); break; case 3: p.push(Val::t("string", word(r, 5, 127))); break; default: p.push(Val::t("some", vk::rnd(r, 2) ? Val::t(vk::rnd(r, 100)) : Val::t())); }
                return Val::t("format", p);
            }
            case 10: { const int f = vk::rnd(r, 2) ? 48 : 33 + vk::rnd(r, 90); return Val::t("unsigned", digits(r, 39), vk::rnd(r, 3) ? vk::rnd(r, 50) : 0, f, vk::rnd(r, 2)); }
            case 11: return Val::t("signed", vk::rnd(r, 2), digits(r, 38));
            default: return Val::t("log", vk::rnd(r, 40000), vk::rnd(r, 86400), vk::rnd(r, 1000000000), vk::rnd(r, 5), word(r, 8, 127));
            }
        }
    };
}
int main(int argc, char** argv)
{
    if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no locale\n"); return 2; }
    return vk::main<Sut>(argc, argv);
}
