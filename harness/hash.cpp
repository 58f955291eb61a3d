// C52: checksums against spec/Hash.tla.
#include "vk.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Int2Array.h"
#include <list>
#include <deque>
using vk::Val;
using namespace awl::crypto;
namespace
{
    template <class A> Val show(const A& a) { Val v; for (uint8_t b : a) v.push((int)b); return v; }
    Val number(uint64_t x) { Val v; for (int i = 56; i >= 0; i -= 8) v.push(int((x >> i) & 255)); return v; }
    uint64_t seed(const Val& v) { uint64_t x = 0; for (size_t i = 0; i < v.size(); ++i) x |= uint64_t(v.n(i)) << (8 * i); return x; }
    // all of them or a text that tells which one differs
    struct Same
    {
        Val v; bool first = true; std::string bad;
        void operator()(const char* what, const Val& x) { if (first) { v = x; first = false; } else if (v.str() != x.str() && bad.empty()) bad = std::string(what) + " gives " + x.str() + ", the first one gives " + v.str(); }
        Val get() { return bad.empty() ? v : Val(bad); }
    };
    template <class T> Val words(uint64_t s, const Val& l)
    {
        std::vector<T> v; for (auto& e : l.a) { T x = 0; for (auto& b : e.a) x = T(std::make_unsigned_t<T>(x) << (sizeof(T) > 1 ? 8 : 0) | std::make_unsigned_t<T>(b.i)); v.push_back(x); }
        std::list<T> w(v.begin(), v.end());
        Same r; r("vector", show(Crc64(s)(v.begin(), v.end()))); r("list", show(Crc64(s)(w.begin(), w.end()))); r("number", number(Int64Hash(s)(v.data(), v.data() + v.size())));
        if constexpr (sizeof(T) > 1) { using S = std::make_signed_t<T>; std::vector<S> n(v.begin(), v.end()); r("signed", show(Crc64(s)(n.begin(), n.end()))); }
        if constexpr (sizeof(T) == 4) { std::u32string t(v.begin(), v.end()); r("text", show(FixedHash<Crc64>(Crc64(s))(t))); std::wstring u(v.begin(), v.end()); r("wide", show(FixedHash<Crc64>(Crc64(s))(std::wstring_view(u)))); }
        return r.get();
    }
    template <class T> Val array(const Val& l)
    {
        std::array<uint8_t, sizeof(T)> a; for (size_t i = 0; i < sizeof(T); ++i) a[i] = (uint8_t)l.n(i);
        const T x = awl::from_array<T>(a); T y = 0; for (uint8_t b : a) y = T(y * (sizeof(T) > 1 ? 256 : 0) + b);
        if (x != y) return Val("the number differs");
        return show(awl::to_array(x));
    }
    template <class T> Val text(uint64_t s, const T& literal, size_t n)
    {
        FixedHash<Crc64> f{ Crc64(s) }; FixedHash<Int64Hash> g{ Int64Hash(s) };
        std::string t(literal, n); awl::fixed_string x(literal); 
        Same r; r("literal", show(f(literal))); r("string", show(f(t))); r("view", show(f(std::string_view(t)))); r("fixed", show(f(x))); r("range", show(f(t.begin(), t.end())));
        r("number of a literal", number(g(literal))); r("number of a string", number(g(t))); r("number of a fixed string", number(g(x)));
        return r.get();
    }
    template <size_t K> constexpr uint64_t type_hash()
    {
        using namespace awl::mp;
        if constexpr (K == 1) return make_type_hash<int8_t>(); else if constexpr (K == 2) return make_type_hash<std::vector<int>>();
        else if constexpr (K == 3) return make_type_hash<double>(); else if constexpr (K == 4) return calc_type_hash(awl::fixed_string("struct"));
        else return make_type_hash<std::pair<short, long>>();
    }
    template <uint64_t x> uint64_t at_compile_time() { return x; }
    struct Sut : vk::Sut
    {
        std::array<uint8_t, 8> total{}; bool begun = false;
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "sum")
            {
                const uint64_t s = seed(o[1]); std::vector<uint8_t> v; for (auto& x : o[2].a) v.push_back((uint8_t)x.i);
                std::string t(v.begin(), v.end()); std::list<int8_t> l(v.begin(), v.end()); std::deque<unsigned char> d(v.begin(), v.end());
                Same r; r("vector", show(Crc64(s)(v.begin(), v.end()))); r("string", show(Crc64(s)(t.begin(), t.end()))); r("pointer", show(Crc64(s)(t.data(), t.data() + t.size())));
                r("list", show(Crc64(s)(l.begin(), l.end()))); r("deque", show(Crc64(s)(d.begin(), d.end()))); r("number", number(Int64Hash(s)(v.begin(), v.end())));
                r("text", show(FixedHash<Crc64>(Crc64(s))(t))); r("again", show(Crc64(s)(v.begin(), v.end())));
                if (s == 127) r("default", show(Crc64()(v.begin(), v.end())));
                if (s == 0) r("default number", number(Int64Hash()(v.begin(), v.end())));
                return r.get();
            }
            if (op == "words") switch (o.n(2))
            {
            case 1: return words<uint8_t>(seed(o[1]), o[3]); case 2: return words<uint16_t>(seed(o[1]), o[3]);
            case 4: return words<uint32_t>(seed(o[1]), o[3]); default: return words<uint64_t>(seed(o[1]), o[3]);
            }
            if (op == "add")
            {
                std::vector<uint8_t> v; for (auto& x : o[1].a) v.push_back((uint8_t)x.i);
                Crc64 h = begun ? Crc64(awl::from_array<uint64_t>(total)) : Crc64(); begun = true;
                total = h(v.begin(), v.end()); return show(total);
            }
            if (op == "array") switch (o[1].size())
            {
            case 1: return array<uint8_t>(o[1]); case 2: return array<uint16_t>(o[1]); case 4: return array<uint32_t>(o[1]);
            case 8: return array<uint64_t>(o[1]); default: return array<unsigned __int128>(o[1]);
            }
            if (op == "name") switch (o.n(1))
            {
            case 1: return number(at_compile_time<type_hash<1>()>()); case 2: return number(at_compile_time<type_hash<2>()>()); case 3: return number(at_compile_time<type_hash<3>()>());
            case 4: return number(at_compile_time<type_hash<4>()>()); default: return number(at_compile_time<type_hash<5>()>());
            }
            const uint64_t s = seed(o[1]);
            Val r = Val::t(text(s, "", 0), text(s, "a", 1), text(s, "123456789", 9), text(s, "\0\xff\x80", 3));
            if (s == 127)
            {
                constexpr auto a = FixedHash<Crc64>()("123456789"); constexpr auto b = FixedHash<Int64Hash>(Int64Hash(127))(awl::fixed_string("\0\xff\x80"));
                if (show(a).str() != r[2].str() || number(b).str() != r[3].str()) return Val("differs at compile time");
            }
            return r;
        }
        Val random_op(vk::Rng& r) override
        {
            auto byte = [&] { return vk::rnd(r, 256); };
            auto bytes = [&](int n) { Val v; for (; n > 0; --n) v.push(byte()); return v; };
            Val s = vk::rnd(r, 2) ? bytes(8) : Val::t(vk::rnd(r, 2) * 127, 0, 0, 0, 0, 0, 0, 0);
            switch (vk::rnd(r, 6))
            {
            case 0: case 1: return Val::t("sum", s, bytes(vk::rnd(r, 2) ? vk::rnd(r, 10) : vk::rnd(r, 200)));
            case 2: { int n = 1 << vk::rnd(r, 4); Val l; for (int k = vk::rnd(r, 8); k > 0; --k) l.push(bytes(n)); return Val::t("words", s, n, l); }
            case 3: return Val::t("array", bytes(1 << vk::rnd(r, 5)));
            case 4: return Val::t("literal", s);
            default: return Val::t("add", bytes(vk::rnd(r, 40)));
            }
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
