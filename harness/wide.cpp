// C56: multiprecision integers and their decimals in a stream against spec/WideInt.tla.
#include "vk.h"
#include <boost/multiprecision/cpp_int.hpp>
#include "BoostExtras/MultiprecisionDecimalData.h"
#include "BoostExtras/Io/MultiprecisionTypeName.h"
#include "Awl/Decimal.h"
#include "Awl/Io/Rw/ArithmeticReadWrite.h"
#include "BoostExtras/Io/Rw/MultiprecisionReadWrite.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Reflection.h"
using vk::Val; using vk::Rng;
namespace bmp = boost::multiprecision;
namespace wide
{
    struct Old { int32_t x = 0; bmp::int256_t w; bmp::uint128_t gone; AWL_REFLECT(x, w, gone) };
    struct New { bmp::uint512_t more = 7; bmp::int256_t w; int32_t x = 0; AWL_REFLECT(more, w, x) };
}
namespace
{
    using Bytes = std::vector<uint8_t>;
    template <class F> auto with(int t, F&& f)
    {
        switch (t)
        {
        case 0: return f(bmp::int128_t()); case 1: return f(bmp::uint128_t()); case 2: return f(bmp::int256_t()); case 3: return f(bmp::uint256_t());
        case 4: return f(bmp::int512_t()); case 5: return f(bmp::uint512_t()); case 6: return f(bmp::int1024_t()); default: return f(bmp::uint1024_t());
        }
    }
    Val val(const Bytes& b) { Val v; for (auto x : b) v.push((int)x); return v; }
    Bytes bytes(const Val& v) { Bytes b; for (auto& x : v.a) b.push_back((uint8_t)x.i); return b; }
    // not by import_bits and export_bits
    template <class N> N make(int neg, const Val& mag) { N n = 0; for (auto& x : mag.a) { n *= 256; n += (unsigned)x.i; } if constexpr (std::numeric_limits<N>::is_signed) if (neg) n = -n; return n; }
    template <class N> Val show(N n)
    {
        const bool neg = n < 0; bmp::cpp_int m(n); if (neg) m = -m;
        std::vector<int> d; while (m != 0) { d.push_back(int(m % 256)); m /= 256; }
        Val v; for (auto i = d.rbegin(); i != d.rend(); ++i) v.push(*i);
        return Val::t(int(neg), v);
    }
    using D = awl::decimal<bmp::uint128_t, 5, awl::MultiprecisionDecimalData>;
    struct Sut : vk::Sut
    {
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "store")
                return with(o.n(1), [&](auto t)
                {
                    using N = decltype(t); const N n = make<N>(o.n(2), o[3]);
                    if (show(n).str() != Val::t(int(o[3].size() && o.n(2)), o[3]).str()) return Val("the number is not made");
                    Bytes b; awl::io::VectorOutputStream out(b);
                    try { awl::io::Write(out, n); } catch (const awl::io::CorruptionException&) { return b.empty() ? Val::t("too long") : Val("written in part"); }
                    for (N back : { N(0), N(77), n })
                    {
                        awl::io::VectorInputStream in(b); awl::io::Read(in, back);
                        if (back != n || !in.End()) return Val("read back: " + show(back).str());
                    }
                    return val(b);
                });
            if (op == "read")
                return with(o.n(1), [&](auto t)
                {
                    using N = decltype(t); Bytes b = bytes(o[2]); awl::io::VectorInputStream in(b); N n = 77;
                    try { awl::io::Read(in, n); }
                    catch (const awl::io::EndOfFileException&) { return Val::t("end"); }
                    catch (const awl::io::CorruptionException&) { return Val::t("corrupted"); }
                    Bytes rest; while (!in.End()) { uint8_t c; in.Read(&c, 1); rest.push_back(c); }
                    return Val::t(show(n), val(rest));
                });
            if (op == "stream")
            {
                Bytes b; awl::io::VectorOutputStream out(b);
                for (auto& x : o[1].a) with(x.n(0), [&](auto t) { awl::io::Write(out, make<decltype(t)>(x.n(1), x[2])); return 0; });
                awl::io::VectorInputStream in(b); Val got;
                for (auto& x : o[1].a) got.push(with(x.n(0), [&](auto t) { awl::io::Read(in, t); return show(t); }));
                return Val::t(val(b), got, int(in.End()));
            }
            if (op == "decimal")
            {
                D d(make<bmp::int128_t>(o.n(1), o[3]), uint8_t(o.n(2)));
                Bytes b; awl::io::VectorOutputStream out(b); awl::io::Write(out, d);
                D e; awl::io::VectorInputStream in(b); awl::io::Read(in, e);
                if (!in.End() || !(e == d) || e.to_bits() != d.to_bits() || e.exponent() != d.exponent()) return Val("read back");
                return val(b);
            }
            if (op == "fields")
            {
                wide::Old a; a.x = o.n(1); a.w = make<bmp::int256_t>(o.n(2), o[3]); a.gone = make<bmp::uint128_t>(0, o[4]);
                Bytes b; awl::io::VectorOutputStream out(b); awl::io::WriteV(static_cast<awl::io::SequentialOutputStream&>(out), a);
                awl::io::VectorInputStream in(b); wide::New n; awl::io::ReadV(static_cast<awl::io::SequentialInputStream&>(in), n);
                if (!in.End()) return Val("not read to the end");
                return Val::t((int)n.x, show(n.w), show(n.more));
            }
            // names
            Val v;
            for (int t = 0; t < 8; ++t) with(t, [&](auto x) { Val c; constexpr auto name = awl::mp::make_type_name<decltype(x)>(); for (char ch : std::string(name.c_str())) c.push((int)ch); v.push(c); return 0; });
            return v;
        }
        static Val mag(Rng& g, int max)
        {
            int n = vk::rnd(g, 3) ? vk::rnd(g, max + 1) : vk::rnd(g, 2) ? max : vk::rnd(g, 4); if (n > max) n = max;
            Val v; bool edge = vk::rnd(g, 2); static const int e[] = { 0, 255, 128, 127, 1 };
            for (int i = 0; i < n; ++i) { int x = edge ? e[vk::rnd(g, 5)] : vk::rnd(g, 256); v.push(i || x ? x : 1); }
            return v;
        }
        static int width(int t) { return 16 << (t / 2); }
        static Val number(Rng& g, int top) { int t = vk::rnd(g, 8); Val m = mag(g, std::min(top, width(t))); return Val::t(t, int(t % 2 == 0 && m.size() && vk::rnd(g, 2)), m); }
        Val random_op(Rng& g) override
        {
            switch (vk::rnd(g, 8))
            {
            case 0: case 1: case 2: { Val n = number(g, 200); return Val::t("store", n.n(0), n.n(1), n[2]); }
            case 3: case 4:
            {
                Val n = number(g, 127), b; int size = (int)n[2].size(); b.push((size + vk::rnd(g, 3) % 2 * (vk::rnd(g, 3) - 1) & 127) + (n.n(1) || vk::rnd(g, 6) == 0 ? 128 : 0));
                for (auto& x : n[2].a) b.push(x); for (int i = vk::rnd(g, 3); i > 0; --i) b.push(vk::rnd(g, 256));
                if (vk::rnd(g, 20) == 0) b = Val::t(vk::rnd(g, 256));
                return Val::t("read", n.n(0), b);
            }
            case 5: { Val l; for (int i = vk::rnd(g, 5); i > 0; --i) l.push(number(g, 127)); return Val::t("stream", l); }
            case 6: return Val::t("decimal", vk::rnd(g, 2), vk::rnd(g, 19), mag(g, 15));
            default: return Val::t("fields", vk::rnd(g, 1000), vk::rnd(g, 2), mag(g, 32), mag(g, 16));
            }
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
