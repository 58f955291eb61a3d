// C43: decimals against spec/Decimal.tla. TYPE: the integer and the length of the exponent.
#include "vk.h"
#ifndef TYPE
#define TYPE 0
#endif
#if TYPE == 9
#include "BoostExtras/MultiprecisionDecimalData.h"
#endif
#include "Awl/DecimalTime.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Rw/DecimalReadWrite.h"
using vk::Val;
namespace
{
#if TYPE == 0
    using D = awl::decimal<uint64_t, 4>;
#elif TYPE == 1
    using D = awl::decimal<uint32_t, 3>;
#elif TYPE == 2
    using D = awl::decimal<uint64_t, 5>;
#elif TYPE == 3
    using D = awl::decimal<uint64_t, 1>;
#elif TYPE == 4
    using D = awl::decimal<__uint128_t, 6>;
#elif TYPE == 5
    using D = awl::decimal<__uint128_t, 4>;
#elif TYPE == 6
    using D = awl::decimal<uint32_t, 8>;
#elif TYPE == 7
    using D = awl::decimal<uint64_t, 6>;
#elif TYPE == 8
    using D = awl::decimal<__uint128_t, 5>;
#else
    using D = awl::decimal<boost::multiprecision::uint128_t, 5, awl::MultiprecisionDecimalData>;
#endif
    using Int = D::Int;
    using UInt = std::decay_t<decltype(D::max_mantissa())>;
    UInt number(const Val& v) { UInt n = 0; for (size_t i = v.size(); i-- > 0; ) n = n * 10u + (unsigned)v.n(i); return n; }
    Val digits(UInt n) { Val v; for (; n != 0; n /= 10u) v.push((int)(n % 10u)); return v; }
    Int integer(int neg, const Val& v) { UInt n = number(v); if (!neg || n == 0) return (Int)n; Int i = -(Int)(n - 1u); return i - 1; }
    Val show(const D& d) { UInt m = d.unsigned_mantissa(); return Val::t("ok", int(d.negative() && m != 0), digits(m), (int)d.exponent()); }
    template <class F> Val attempt(F f)
    {
        try { return f(); } catch (const std::logic_error&) { return Val::t("thrown"); }
    }
    const char codes[] = "0123456789.-+ae ";
    template <class C> std::basic_string<C> text(const Val& v) { std::basic_string<C> s; for (auto& x : v.a) s += C(codes[x.i]); return s; }
    template <class C> Val codes_of(std::basic_string<C> s)
    {
        // negative zero is zero
        if (!s.empty() && s[0] == '-' && s.find_first_of(std::basic_string<C>{'1', '2', '3', '4', '5', '6', '7', '8', '9'}) == s.npos) s.erase(0, 1);
        Val v;
        for (C c : s) { const char* p = c ? strchr(codes, (char)c) : nullptr; v.push(p && c < 128 ? int(p - codes) : 99); }
        return v;
    }
    template <class C> D parse(const Val& v)
    {
        std::basic_string<C> s = text<C>(v);
        D a(s.c_str());
        // exactly the characters of the view are read
        std::vector<C> exact(s.begin(), s.end());
        D b = D::template from_string<C>(std::basic_string_view<C>(exact.data(), exact.size()));
        if (a.to_bits() != b.to_bits()) throw std::runtime_error("two constructors disagree");
        return a;
    }
    Val compare(const D& a, const D& b) { return Val::t("ok", int(a == b), int(a != b), int(a < b), int(a > b), int(a <= b), int(a >= b)); }
    Val whole(const D& d)
    {
#if TYPE == 9
        int64_t n = 0; try { n = d.truncate(0).mantissa().template convert_to<int64_t>(); } catch (...) {}
        (void)n;
        return Val::t("ok", int(d.negative() && d.truncate(0).unsigned_mantissa() != 0), digits(d.truncate(0).unsigned_mantissa()));
#else
        Int n = d.template cast<Int>();
        return Val::t("ok", int(n < 0), digits(n < 0 ? UInt(-n) : UInt(n)));
#endif
    }
    Val nano(const D& d)
    {
        return attempt([&] { long long n = awl::decimal_to_nanoseconds(d).count(); Val v; for (auto m = (unsigned long long)(n < 0 ? -n : n); m; m /= 10) v.push((int)(m % 10)); return Val::t("ok", int(n < 0), v); });
    }
    Val mantissa(const D& d, int e)
    {
        return attempt([&] { Int n = d.rescaled_mantissa((uint8_t)e); return Val::t("ok", int(n < 0), digits(n < 0 ? UInt(-n) : UInt(n))); });
    }
    D binary(int mode, int k, int n, int e)
    {
        double v = std::ldexp((double)k, -n);
        switch (mode)
        {
        case 1: return D::make_rounded(v, (uint8_t)e);
        case 2: return D::make_ceiled(v, (uint8_t)e);
        case 3: return D::make_floored(v, (uint8_t)e);
        }
        D a = D::make_truncated(v, (uint8_t)e), b = D::make_decimal(v, (uint8_t)e);
        if (a.to_bits() != b.to_bits()) throw std::runtime_error("make_truncated differs");
        if (k < (1 << 24) && -k < (1 << 24) && D::make_truncated((float)v, (uint8_t)e).to_bits() != a.to_bits()) throw std::runtime_error("make_truncated<float> differs");
        return a;
    }
    D power(int mode, int neg, int p, int e)
    {
        double v = p == -1 ? INFINITY : p == -2 ? NAN : std::ldexp(1.0, p); if (neg) v = -v;
        if (mode == 4) { static int turn = 0; return ++turn % 3 == 0 ? D::make_decimal(v, (uint8_t)e) : turn % 3 == 1 || p > 127 ? D::make_truncated(v, (uint8_t)e) : D::make_truncated((float)v, (uint8_t)e); }
        return mode == 1 ? D::make_rounded(v, (uint8_t)e) : mode == 2 ? D::make_ceiled(v, (uint8_t)e) : D::make_floored(v, (uint8_t)e);
    }
    template <class I> D make_integer(I i, uint8_t e, int way)
    {
        switch (way)
        {
        case 0: return D::make_decimal(i, e);
        case 1: return D::make_rounded(i, e);
        case 2: return D::make_ceiled(i, e);
        case 3: return D::make_floored(i, e);
        default: { D d(e); d = i; return d; }
        }
    }
    D make(int neg, const Val& v, int e) { D d(integer(neg, v), (uint8_t)e); if (neg && v.size() == 0) d.negate(); return d; } // also negative zero
    struct Sut : vk::Sut
    {
        static inline int R = 3, Bits = 59, MaxE = 15; std::vector<D> x; unsigned turn = 0;
        Sut() : x(R + 1) {}
        template <class F> Val set(int i, F f) { return attempt([&] { x[i] = f(); return show(x[i]); }); }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name(); ++turn;
            try { return apply2(o); }
            catch (const std::exception& e) { return Val::t("failed", e.what()); }
        }
        Val apply2(const Val& o)
        {
            const std::string& n = o.name();
            if (n == "pair")
            {
                const D a = make(o.n(1), o[2], o.n(3)), b = make(o.n(4), o[5], o.n(6));
                return Val::t(attempt([&] { return show(a + b); }), attempt([&] { return show(a - b); }), attempt([&] { return show(awl::multiply(a, b)); }), compare(a, b));
            }
            if (n == "unary")
            {
                const D v = make(o.n(1), o[2], o.n(3)); uint8_t d = (uint8_t)o.n(4);
                Val t = codes_of(v.to_astring());
                return Val::t(attempt([&] { return show(v.rescale(d)); }), attempt([&] { return show(v.rescale(d, false)); }), attempt([&] { return show(v.extend(d)); }),
                    attempt([&] { return show(v.truncate(d)); }), attempt([&] { return show(v.floor(d)); }), attempt([&] { return show(v.ceil(d)); }),
                    attempt([&] { return show(v.normalize()); }), attempt([&] { return show(-v); }), t, attempt([&] { return show(parse<char>(t)); }), whole(v), nano(v));
            }
            if (n == "try")
            {
                Val a = attempt([&] { return show(parse<char>(o[1])); }), b = attempt([&] { return show(parse<wchar_t>(o[1])); });
                return a.str() == b.str() ? a : Val("differs for wide strings");
            }
            if (n == "power") return attempt([&] { return show(power(o.n(1), o.n(2), o.n(3), o.n(4))); });
            if (n == "fraction") return attempt([&] { return show(binary(o.n(1), o.n(2), o.n(3), o.n(4))); });
            if (n == "compare") return compare(x[o.n(1)], x[o.n(2)]);
            if (n == "text")
            {
                const D& d = x[o.n(1)]; std::ostringstream s; s << d;
                if (s.str() != d.to_astring() || awl::FromAString(s.str()) != d.to_string()) return Val("to_string differs");
                return Val::t("ok", codes_of(s.str()));
            }
#if TYPE == 9   // Boost prints to narrow streams only
            if (n == "wtext") return Val::t("ok", codes_of(x[o.n(1)].to_string()));
#else
            if (n == "wtext") return Val::t("ok", codes_of(x[o.n(1)].to_wstring()));
#endif
            if (n == "whole") return whole(x[o.n(1)]);
            if (n == "nano") return nano(x[o.n(1)]);
            if (n == "mantissa") return mantissa(x[o.n(1)], o.n(2));
            return set(o.n(1), [&]() -> D
            {
                int i = o.n(1);
                if (n == "make")
                {
                    if (turn % 2) { D d((uint8_t)o.n(4)); d.set_mantissa(integer(o.n(2), o[3])); return d; }
                    return make(o.n(2), o[3], o.n(4));
                }
                if (n == "parse") return parse<char>(o[2]);
                if (n == "wparse") return parse<wchar_t>(o[2]);
#if TYPE == 9
                if (n == "integer") return make_integer((int64_t)integer(o.n(2), o[3]), o.n(4), turn % 5);
#else
                if (n == "integer") return make_integer(integer(o.n(2), o[3]), o.n(4), turn % 5);
#endif
                if (n == "binary") return binary(o.n(2), o.n(3), o.n(4), o.n(5));
                if (n == "limit") return o.n(2) ? std::numeric_limits<D>::min() : std::numeric_limits<D>::max();
                const D& a = x[o.n(2)];
                if (n == "add") { if (i == o.n(2) && turn % 2) { D t = a; t += x[o.n(3)]; return t; } return a + x[o.n(3)]; }
                if (n == "sub") { if (i == o.n(2) && turn % 2) { D t = a; t -= x[o.n(3)]; return t; } return a - x[o.n(3)]; }
                if (n == "mul") return awl::multiply(a, x[o.n(3)]);
                if (n == "neg") { if (turn % 2) { D t = a; t.negate(); return t; } return -a; }
                if (n == "normalize") return a.normalize();
                if (n == "copy")
                {
                    D b = D::from_bits(a.to_bits());
#if TYPE == 9
                    return b;
#else
                    std::vector<uint8_t> v; awl::io::VectorOutputStream out(v); awl::io::Write(out, b);
                    awl::io::VectorInputStream in(v); D c(3); awl::io::Read(in, c);
                    if (!in.End()) throw std::runtime_error("too much was written");
                    return c;
#endif
                }
                uint8_t d = (uint8_t)o.n(3);
                if (n == "rescale") return a.rescale(d);
                if (n == "trim") return a.rescale(d, false);
                if (n == "extend") return a.extend(d);
                if (n == "truncate") return a.truncate(d);
                if (n == "floor") return a.floor(d);
                if (n == "ceil") return a.ceil(d);
                throw std::runtime_error("unknown " + n);
            });
        }
        Val number(vk::Rng& r, int bits)   // of any size, often near a limit
        {
            UInt m = D::max_mantissa(), n = 0;
            switch (vk::rnd(r, 5))
            {
            case 0: n = UInt(r()); if (sizeof(UInt) > 8) n = n << 32 ^ UInt(r()); n = n % (m + 1u); for (int k = vk::rnd(r, bits); k > 0; --k) n /= 2u; break;
            case 1: n = m - (unsigned)vk::rnd(r, 3); break;
            case 2: n = m; for (int k = vk::rnd(r, 20); k > 0; --k) n /= 10u; n += (unsigned)vk::rnd(r, 2); break;
            case 3: n = 1u; for (int k = vk::rnd(r, 38); k > 0 && n <= m / 10u; --k) n *= 10u; n = n * (1u + (unsigned)vk::rnd(r, 3)) + (unsigned)vk::rnd(r, 3) - 1u; break;
            case 4: n = (unsigned)vk::rnd(r, 1000); break;
            }
            return digits(n);
        }
        int exponent(vk::Rng& r) { return vk::rnd(r, 3) ? vk::rnd(r, MaxE < 6 ? MaxE + 1 : 6) : vk::rnd(r, MaxE + 1); }
        Val random_op(vk::Rng& r) override
        {
            int i = 1 + vk::rnd(r, R), j = 1 + vk::rnd(r, R), k = 1 + vk::rnd(r, R), neg = vk::rnd(r, 2);
            static const char* const un[] = { "rescale", "trim", "extend", "truncate", "floor", "ceil" };
            switch (vk::rnd(r, 18))
            {
            case 0: case 1: return Val::t("make", i, neg, number(r, Bits), exponent(r));
            case 2: return Val::t("integer", i, neg, small(r), exponent(r));
            case 3: return Val::t("binary", i, 1 + vk::rnd(r, 4), vk::rnd(r, 200001) - 100000, vk::rnd(r, 7), vk::rnd(r, MaxE < 3 ? MaxE + 1 : 4));
            case 4: case 5: return Val::t(neg ? "parse" : "wparse", i, some_text(r, j));
            case 6: case 7: return Val::t("add", i, j, k);
            case 8: return Val::t("sub", i, j, k);
            case 9: return Val::t("mul", i, j, k);
            case 10: return Val::t(neg ? "neg" : "normalize", i, j);
            case 11: return vk::rnd(r, 10) ? Val::t("copy", i, j) : Val::t("limit", i, neg);
            case 12: case 13: return Val::t(un[vk::rnd(r, 6)], i, j, vk::rnd(r, 15) ? exponent(r) : 254 + vk::rnd(r, 2));
            case 14: case 15: return Val::t("compare", i, j);
            case 16: return Val::t(neg ? "text" : "wtext", i);
            default: switch (vk::rnd(r, 3)) { case 0: return Val::t("whole", i); case 1: return Val::t("nano", i); default: return Val::t("mantissa", i, exponent(r)); }
            }
        }
        Val small(vk::Rng& r) { Val v = number(r, Bits); while (v.size() > (sizeof(UInt) > 8 ? 18 : 30)) v.a.pop_back(); while (v.size() && v.n(v.size() - 1) == 0) v.a.pop_back(); return v; }
        Val some_text(vk::Rng& r, int j)
        {
            Val v;
            if (vk::rnd(r, 3) == 0) v = codes_of(x[j].to_astring());
            else
            {
                if (vk::rnd(r, 2)) v.push(11 + vk::rnd(r, 2));
                int a = vk::rnd(r, 4) ? vk::rnd(r, 6) : vk::rnd(r, 40), b = vk::rnd(r, 4) ? vk::rnd(r, 6) : vk::rnd(r, 40);
                for (int k = 0; k < a; ++k) v.push(vk::rnd(r, 2) ? vk::rnd(r, 10) : 0);
                if (vk::rnd(r, 4)) { v.push(10); for (int k = 0; k < b; ++k) v.push(vk::rnd(r, 2) ? vk::rnd(r, 10) : 0); }
            }
            if (vk::rnd(r, 8) == 0) v.a.insert(v.a.begin() + vk::rnd(r, v.size() + 1), Val(vk::rnd(r, 16)));
            return v;
        }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d", &Sut::R, &Sut::Bits, &Sut::MaxE);
    if (D::max_exponent() != Sut::MaxE) { printf("MISMATCH the largest exponent is %d\n", (int)D::max_exponent()); return 3; }
    if (argc > 1 && !strcmp(argv[1], "digits"))   // more digits than a decimal can have
    {
        int kept = 0;
        for (int e = D::max_exponent() + 1; e < 256; ++e) try { D d(Int(1), (uint8_t)e); ++kept; } catch (const std::logic_error&) {}
        printf("kept=%d\n", kept);
        return 0;
    }
    return vk::main<Sut>(argc, argv);
}
