// C07: plain serialization against spec/PlainTrace.tla. VK_PARAMS: stream kind; PART: part of the types
#include "vk.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Reflection.h"
#include "Awl/EnumTraits.h"
#include "Awl/BitMap.h"
#include "Awl/Ring.h"
#include <limits>
#include <list>
#include <bitset>
using vk::Val; using vk::Rng; using vk::rnd;

namespace plain
{
    AWL_SEQUENTIAL_ENUM(Colour, Red, Green, Blue, White, Black, Grey, Pink, Cyan, Gold)
}
AWL_ENUM_TRAITS(plain, Colour)
namespace plain
{
    enum class Wide : int64_t { Min = std::numeric_limits<int64_t>::min(), Zero = 0, Max = std::numeric_limits<int64_t>::max() };
    enum Small : uint8_t { S0, S1 = 200, S2 = 255 };

    struct Point { int32_t x = 0; int16_t y = 0; AWL_REFLECT(x, y) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Point)
    struct Named { std::string name; std::optional<Point> where; std::vector<bool> flags; AWL_TUPLIZABLE(name, where, flags) };
    struct Inner { std::variant<int32_t, std::string, Point> v; std::map<std::string, std::vector<Point>> m; AWL_REFLECT(v, m) };
    struct Outer { bool b = false; Inner in; std::array<Point, 2> ps; std::shared_ptr<Inner> p; std::set<std::pair<int, int>> none; double d = 0; AWL_REFLECT(b, in, ps, p, d) };
    struct Atomics { std::atomic<int32_t> i{ 0 }; std::atomic<bool> b{ false }; std::atomic<uint64_t> u{ 0 }; std::string s; AWL_REFLECT(i, b, u, s) };
    struct Owner { std::unique_ptr<Point> p; std::unique_ptr<std::vector<std::string>> v; int8_t last = 0; AWL_REFLECT(p, v, last) };
    struct PointLess { bool operator()(const Point& a, const Point& b) const { return a < b; } };
    struct PointHash { size_t operator()(const Point& p) const { return size_t(p.x) * 31 + p.y; } };
    // The members of a std::tuple, serialized through std::tie
    template <class... T> struct Tied { std::tuple<T...> t; auto as_const_tuple() const { return std::apply([](auto&... a) { return std::tie(a...); }, t); } auto as_tuple() const { return as_const_tuple(); } auto as_tuple() { return std::apply([](auto&... a) { return std::tie(a...); }, t); } };

    // ---- making values ----
    struct Gen
    {
        Rng& g; int size;   // size: the usual number of elements
        Gen inner() { return { g, size > 12 ? size / 8 : size > 3 ? 3 : size }; }
        int count() { int c = rnd(g, 8); return c == 0 ? 0 : c == 1 ? rnd(g, size * 6 + 1) : rnd(g, size + 1); }
    };
    template <class T> concept scalar = std::is_arithmetic_v<T> || std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>;
    template <scalar T> void gen(Gen& g, T& v)
    {
        if constexpr (std::is_same_v<T, bool>) v = rnd(g.g, 2);
        else if constexpr (std::is_floating_point_v<T>)
        {
            static const T s[] = { T(0), T(-0.0), T(1), T(-1.5), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), T(0.1) };
            v = s[rnd(g.g, 9)];
        }
        else switch (rnd(g.g, 5))
        {
        case 0: v = T(0); break;
        case 1: v = std::numeric_limits<T>::max(); break;
        case 2: v = std::numeric_limits<T>::min(); break;
        case 3: v = T(rnd(g.g, 300) - 20); break;
        default: v = T(g.g()); if (sizeof(T) > 8) v = T(v * T(1000000007) * T(g.g()));
        }
    }
    template <class T> requires std::is_enum_v<T> void gen(Gen& g, T& v)
    {
        if constexpr (awl::is_sequential_enum<T>) v = T(rnd(g.g, awl::EnumTraits<T>::count()));
        else { std::underlying_type_t<T> u; gen(g, u); v = T(u); }
    }
    template <class C> void gen(Gen& g, std::basic_string<C>& v) { v.clear(); for (int n = g.count(); n > 0; --n) v.push_back(rnd(g.g, 9) ? C(g.g()) : C(0)); }
    template <class T> void gen(Gen& g, std::vector<T>& v);
    template <class T> void gen(Gen& g, std::deque<T>& v);
    template <class T, size_t N> void gen(Gen& g, std::array<T, N>& v);
    template <class T, class L> void gen(Gen& g, std::set<T, L>& v);
    template <class T, class H> void gen(Gen& g, std::unordered_set<T, H>& v);
    template <class T, class L> void gen(Gen& g, awl::vector_set<T, L>& v);
    template <class T, class L> void gen(Gen& g, awl::observable_set<T, L>& v);
    template <class K, class T, class L> void gen(Gen& g, std::map<K, T, L>& v);
    template <class K, class T> void gen(Gen& g, std::unordered_map<K, T>& v);
    template <class T> void gen(Gen& g, awl::ring<T>& v);
    template <class T> void gen(Gen& g, std::optional<T>& v);
    template <class T> void gen(Gen& g, std::shared_ptr<T>& v);
    template <class T> void gen(Gen& g, std::unique_ptr<T>& v);
    template <class T> void gen(Gen& g, std::atomic<T>& v) { T t{}; gen(g, t); v = t; }
    template <class... T> void gen(Gen& g, std::variant<T...>& v);
    template <size_t N> void gen(Gen& g, std::bitset<N>& v) { for (size_t i = 0; i < N; ++i) v[i] = rnd(g.g, 2); }
    template <class E, std::underlying_type_t<E> N> void gen(Gen& g, awl::bitmap<E, N>& v) { v = awl::bitmap<E, N>(); for (int i = 0; i < N; ++i) if (rnd(g.g, 2)) v[E(i)] = true; }
    template <class C, class D> void gen(Gen& g, std::chrono::time_point<C, D>& v)
    {   // the stored form is a count of nanoseconds in 64 bits
        int64_t n; gen(g, n); v = std::chrono::time_point<C, D>(std::chrono::duration_cast<D>(std::chrono::nanoseconds(n)));
    }
    template <class U, uint8_t e, template <class, uint8_t> class DT> void gen(Gen& g, awl::decimal<U, e, DT>& v)
    {
        int64_t n = int64_t(g.g() % 2000001) - 1000000; uint8_t digits = uint8_t(rnd(g.g, 5));
        v = awl::decimal<U, e, DT>(n, digits);
    }
    template <class T> requires awl::is_tuplizable_v<T> void gen(Gen& g, T& v) { std::apply([&](auto&... f) { (gen(g, f), ...); }, v.as_tuple()); }

    template <class T> void gen(Gen& g, std::vector<T>& v) { v.clear(); for (int n = g.count(); n > 0; --n) { T t{}; auto e = g.inner(); gen(e, t); v.push_back(std::move(t)); } }
    template <class T> void gen(Gen& g, std::deque<T>& v) { v.clear(); for (int n = g.count(); n > 0; --n) { T t{}; auto e = g.inner(); gen(e, t); v.push_back(std::move(t)); } }
    template <class T, size_t N> void gen(Gen& g, std::array<T, N>& v) { for (auto& t : v) gen(g, t); }
    template <class T, class S> void fill(Gen& g, S& v) { v.clear(); for (int n = g.count(); n > 0; --n) { T t{}; auto e = g.inner(); gen(e, t); v.insert(t); } }
    template <class T, class L> void gen(Gen& g, std::set<T, L>& v) { fill<T>(g, v); }
    template <class T, class H> void gen(Gen& g, std::unordered_set<T, H>& v) { fill<T>(g, v); }
    template <class T, class L> void gen(Gen& g, awl::vector_set<T, L>& v) { fill<T>(g, v); }
    template <class T, class L> void gen(Gen& g, awl::observable_set<T, L>& v) { fill<T>(g, v); }
    template <class K, class T, class L> void gen(Gen& g, std::map<K, T, L>& v) { v.clear(); for (int n = g.count(); n > 0; --n) { K k{}; auto e = g.inner(); gen(e, k); gen(e, v[k]); } }
    template <class K, class T> void gen(Gen& g, std::unordered_map<K, T>& v) { v.clear(); for (int n = g.count(); n > 0; --n) { K k{}; auto e = g.inner(); gen(e, k); gen(e, v[k]); } }
    template <class T> void gen(Gen& g, awl::ring<T>& v) { for (int n = g.count(); n > 0; --n) { T t{}; auto e = g.inner(); gen(e, t); v.push_back(t); } }
    template <class T> void gen(Gen& g, std::optional<T>& v) { v.reset(); if (rnd(g.g, 3)) { T t{}; auto e = g.inner(); gen(e, t); v = std::move(t); } }
    template <class T> void gen(Gen& g, std::shared_ptr<T>& v) { v.reset(); if (rnd(g.g, 3)) { v = std::make_shared<T>(); gen(g, *v); } }
    template <class T> void gen(Gen& g, std::unique_ptr<T>& v) { v.reset(); if (rnd(g.g, 3)) { v = std::make_unique<T>(); gen(g, *v); } }
    template <size_t I, class V> void gen_alt(Gen& g, V& v, size_t i) { if constexpr (I < std::variant_size_v<V>) { if (i == I) { v.template emplace<I>(); gen(g, std::get<I>(v)); } else gen_alt<I + 1>(g, v, i); } }
    template <class... T> void gen(Gen& g, std::variant<T...>& v) { gen_alt<0>(g, v, rnd(g.g, sizeof...(T))); }

    // ---- describing values, independently of the library ----
    template <class T> requires (std::is_arithmetic_v<T> || std::is_enum_v<T> || scalar<T>) void dump(std::string& o, const T& v)
    {
        unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof v); char t[4];
        size_t n = std::is_same_v<T, long double> ? 10 : sizeof(T);
        for (size_t i = 0; i < n; ++i) { snprintf(t, sizeof t, "%02x", b[i]); o += t; }
    }
    template <class T> void dump(std::string& o, const std::optional<T>& v);
    template <class T> void dump(std::string& o, const std::shared_ptr<T>& v);
    template <class T> void dump(std::string& o, const std::unique_ptr<T>& v);
    template <class... T> void dump(std::string& o, const std::variant<T...>& v);
    template <class T> void dump(std::string& o, const std::atomic<T>& v) { dump(o, v.load()); }
    template <size_t N> void dump(std::string& o, const std::bitset<N>& v) { o += v.to_string(); }
    template <class E, std::underlying_type_t<E> N> void dump(std::string& o, const awl::bitmap<E, N>& v) { for (int i = 0; i < N; ++i) o += v[E(i)] ? '1' : '0'; }
    template <class C, class D> void dump(std::string& o, const std::chrono::time_point<C, D>& v) { o += std::to_string(v.time_since_epoch().count()); }
    template <class U, uint8_t e, template <class, uint8_t> class DT> void dump(std::string& o, const awl::decimal<U, e, DT>& v) { dump(o, v.to_bits()); }
    template <class A, class B> void dump(std::string& o, const std::pair<A, B>& v);
    template <class T> requires awl::is_tuplizable_v<T> void dump(std::string& o, const T& v);
    template <class T> concept range = requires(const T& t) { t.begin(); t.end(); t.size(); } && !awl::is_tuplizable_v<T>;
    template <range T> void dump(std::string& o, const T& v);
    template <class T> concept hashed = requires(const T& t) { t.bucket_count(); };
    template <range T> void dump(std::string& o, const T& v)
    {
        std::vector<std::string> x;
        for (auto i = v.begin(); i != v.end(); ++i) { const typename T::value_type& e = *i; std::string s; dump(s, e); x.push_back(s); }
        if constexpr (hashed<T>) std::sort(x.begin(), x.end());
        o += '[' + std::to_string(v.size());
        for (auto& s : x) o += ' ' + s;
        o += ']';
    }
    template <class T> void dump(std::string& o, const std::optional<T>& v) { if (v) { o += '?'; dump(o, *v); } else o += '-'; }
    template <class T> void dump(std::string& o, const std::shared_ptr<T>& v) { if (v) { o += '*'; dump(o, *v); } else o += '-'; }
    template <class T> void dump(std::string& o, const std::unique_ptr<T>& v) { if (v) { o += '*'; dump(o, *v); } else o += '-'; }
    template <class... T> void dump(std::string& o, const std::variant<T...>& v) { o += '#' + std::to_string(v.index()) + ':'; std::visit([&](auto& a) { dump(o, a); }, v); }
    template <class A, class B> void dump(std::string& o, const std::pair<A, B>& v) { o += '('; dump(o, v.first); o += ','; dump(o, v.second); o += ')'; }
    template <class T> requires awl::is_tuplizable_v<T> void dump(std::string& o, const T& v) { o += '{'; std::apply([&](auto&... f) { ((dump(o, f), o += ';'), ...); }, v.as_const_tuple()); o += '}'; }
    inline std::string brief(const std::string& s)
    {
        if (s.size() < 48) return s;
        uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return s.substr(0, 20) + "~" + std::to_string(s.size()) + "~" + std::to_string(h);
    }

    template <class... T> struct List {};
    using awl::vector_set; using std::string; using std::vector; using std::optional; using std::variant; using std::map; using std::set; using std::array;
    using sys = std::chrono::system_clock; using steady = std::chrono::steady_clock;
#if PART == 0
    using MyPart = List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, long long, bool, char, wchar_t, char16_t, char32_t, float, double, long double,
        Wide, Small, Colour, string, std::wstring, std::u16string, std::u32string, vector<int32_t>, vector<uint8_t>, vector<double>, vector<bool>, vector<string>, std::bitset<1>, std::bitset<8>, std::bitset<13>, std::bitset<64>,
        awl::bitmap<Colour>, std::atomic<int64_t>, std::atomic<bool>, std::atomic<Small>, sys::time_point, steady::time_point, std::chrono::time_point<sys, std::chrono::seconds>,
        awl::decimal<uint64_t, 4>, awl::decimal<uint64_t, 5>, array<int32_t, 3>, array<uint8_t, 7>, array<bool, 8>, array<bool, 11>, array<string, 2>, array<Point, 3>>;
#elif PART == 1
    using MyPart = List<vector<vector<int16_t>>, vector<vector<bool>>, vector<vector<string>>, vector<Point>, vector<optional<string>>, vector<variant<int8_t, string>>, vector<map<int32_t, string>>,
        std::deque<int32_t>, std::deque<string>, std::deque<Point>, set<int32_t>, set<string>, set<vector<uint8_t>>, set<int64_t, std::greater<>>, std::unordered_set<string>, std::unordered_set<Point, PointHash>,
        vector_set<int32_t>, vector_set<string>, vector_set<Point, PointLess>, awl::observable_set<int64_t>, awl::observable_set<string>, map<string, int32_t>, map<int8_t, vector<string>>, map<string, map<string, Point>>, map<string, bool>,
        std::unordered_map<int32_t, string>, std::unordered_map<string, vector<Point>>, map<Colour, optional<double>>, map<string, variant<bool, Point>>, awl::ring<int32_t>, awl::ring<string>, awl::ring<Point>>;
#elif PART == 2
    using MyPart = List<optional<bool>, optional<int64_t>, optional<string>, optional<optional<bool>>, optional<vector<optional<int8_t>>>, optional<Point>, optional<Colour>,
        variant<bool, int32_t>, variant<int8_t, uint8_t, int16_t, uint64_t, double>, variant<string, vector<string>, Point>, variant<Point, Named, optional<Point>>, variant<variant<int32_t, string>, variant<bool, double>>, variant<vector<bool>, set<int32_t>, map<string, Point>>,
        std::shared_ptr<int32_t>, std::shared_ptr<string>, std::shared_ptr<Point>, std::shared_ptr<std::shared_ptr<string>>, std::unique_ptr<string>, std::unique_ptr<Named>, std::unique_ptr<vector<Point>>, vector<std::shared_ptr<Point>>, vector<std::unique_ptr<string>>,
        Named>;
#else
    using MyPart = List<Point, Named, Inner, Outer, Atomics, Owner, Tied<int32_t, string>, Tied<bool, Point, vector<bool>, uint8_t>, Tied<Tied<int8_t>, optional<Tied<string, int64_t>>>, vector<Inner>, vector<Owner>, optional<Outer>, map<string, Inner>, array<Outer, 2>, array<optional<Named>, 3>>;
#endif

    // ---- streams with a position ----
    struct In : awl::io::SequentialInputStream
    {
        awl::io::SequentialInputStream& s; size_t pos = 0;
        In(awl::io::SequentialInputStream& s) : s(s) {}
        bool End() override { return s.End(); }
        size_t Read(uint8_t* b, size_t n) override { size_t k = s.Read(b, n); pos += k; return k; }
    };
    struct Out : awl::io::SequentialOutputStream
    {
        awl::io::SequentialOutputStream& s; size_t pos = 0;
        Out(awl::io::SequentialOutputStream& s) : s(s) {}
        void Write(const uint8_t* b, size_t n) override { pos += n; s.Write(b, n); }
    };

    int Kind = 0; const int Part = PART;
    template <class T> T* fresh()
    {
        if constexpr (requires(T t) { t.capacity(); t.push_front(t.front()); }) return new T(64); // a ring is given its capacity first
        else return new T();
    }
    struct Type
    {
        virtual std::pair<std::string, size_t> write(Rng& g, int size, Out& o, bool serializable) = 0;
        virtual std::string read(In& in, bool serializable) = 0;
    };
    template <class T> std::string text(const T& v) { std::string s; dump(s, v); return brief(s); }
    template <class T> struct TypeOf : Type
    {
        // wrapped: through PlainSerializable
        static constexpr bool wrap = std::is_default_constructible_v<T> && std::is_move_assignable_v<T> && !requires(T t) { t.capacity(); t.push_front(t.front()); };
        std::pair<std::string, size_t> write(Rng& r, int size, Out& o, bool w) override
        {
            std::unique_ptr<T> v(fresh<T>());
            Gen g{ r, size };
            gen(g, *v);
            std::string before = text(*v);
            awl::io::MeasureStream m;
            if constexpr (wrap) if (w)
            {
                awl::io::PlainSerializable<T> s(*v);
                s.Write(m); s.Write(o);
            }
            if (!wrap || !w) { awl::io::Write(m, std::as_const(*v)); awl::io::Write(o, std::as_const(*v)); }
            if (text(*v) != before) return { "changed by writing", 0 };
            return { before, m.GetLength() };
        }
        std::string read(In& in, bool w) override
        {
            std::unique_ptr<T> v(fresh<T>());
            if constexpr (wrap) if (w)
            {
                awl::io::PlainSerializable<T> s(*v);
                s.Read(in);
                return text(*v);
            }
            awl::io::Read(in, *v);
            return text(*v);
        }
    };
    template <class... T> std::vector<Type*> types(List<T...>) { return { new TypeOf<T>()... }; }
    std::vector<Type*>& all()
    {
        static auto& v = *new std::vector<Type*>(types(MyPart()));
        return v;
    }

    using namespace awl::io;
    using Hash = awl::crypto::Crc64;
    // Kinds: 0 vector, 1 std stream, 2 buffered (blocks of 5), 3 hashing (blocks of 40), 4 buffered (blocks of 64K)
    std::unique_ptr<SequentialOutputStream> wrap_out(SequentialOutputStream& o)
    {
        switch (Kind) {
        case 2: return std::make_unique<BufferedOutputStream>(o, 5);
        case 3: return std::make_unique<HashOutputStream<Hash>>(o, 40);
        case 4: return std::make_unique<BufferedOutputStream>(o);
        } return nullptr;
    }
    std::unique_ptr<SequentialInputStream> wrap_in(SequentialInputStream& o)
    {
        switch (Kind) {
        case 2: return std::make_unique<BufferedInputStream>(o, 5);
        case 3: return std::make_unique<HashInputStream<Hash>>(o, 40);
        case 4: return std::make_unique<BufferedInputStream>(o);
        } return nullptr;
    }
    struct Entry { int type; std::string text; size_t len; };

    // One history: values are written, then the whole stream or a prefix of it is read.
    std::string stored(Rng& g, const std::vector<int>& ts, int size, std::vector<Entry>& es, std::ostream& log)
    {
        std::vector<uint8_t> v; std::ostringstream ss;
        {
            VectorOutputStream vo(v); StdOutputStream so(ss);
            SequentialOutputStream& base = Kind == 1 ? (SequentialOutputStream&)so : vo;
            auto top = wrap_out(base);
            Out o(top ? *top : base);
            for (int t : ts)
            {
                size_t p = o.pos;
                auto [text, len] = all()[t]->write(g, size, o, g() % 3 == 0);
                es.push_back({ t, text, o.pos - p });
                std::string q, r; Val::t("write", t, text, o.pos - p).print(q);
                Val(len == o.pos - p ? std::string("ok") : "measured " + std::to_string(len)).print(r);
                log << "{\"o\":" << q << ",\"r\":" << r << "}\n";
                vk::note(q);
            }
        }
        if (Kind == 1) return ss.str();
        return std::string(v.begin(), v.end());
    }
    void read(Rng& g, const std::string& bytes, const std::vector<Entry>& es, std::ostream& log)
    {
        std::vector<uint8_t> v(bytes.begin(), bytes.end()); v.reserve(1); std::istringstream ss(bytes);
        VectorInputStream vi(v); StdInputStream si(ss);
        SequentialInputStream& base = Kind == 1 ? (SequentialInputStream&)si : vi;
        auto top = wrap_in(base);
        In in(top ? *top : base);
        for (const Entry& e : es)
        {
            vk::progress();
            size_t p = in.pos;
            std::string r;
            try { r = all()[e.type]->read(in, g() % 3 == 0); }
            catch (const EndOfFileException&) { r = "eof"; }
            catch (const awl::Exception&) { r = "another exception"; }
            std::string q, s; Val::t("read", e.type, in.pos - p).print(q); Val(r).print(s);
            log << "{\"o\":" << q << ",\"r\":" << s << "}\n";
            vk::note(q);
            if (r == "eof" || r == "another exception") return;
        }
        log << "{\"o\":[\"end\"],\"r\":\"" << (in.End() ? "true" : "false") << "\"}\n";
    }
    const char* reset = "{\"o\":[\"reset\"],\"r\":\"\"}\n";
}

int main(int argc, char** argv)
{
    using namespace plain;
    vk::install();
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d", &Kind);
    if (argc < 5) return 2;
    Rng g(strtoul(argv[1], 0, 10) * 31 + Kind * 7 + Part);
    int rounds = atoi(argv[2]), cuts = atoi(argv[3]);
    std::ofstream log(argv[4]);
    long histories = 0, reads = 0;
    int n = (int)all().size();
    for (int round = 0; round < rounds; ++round) for (int t = 0; t < n; ++t)
    {
        vk::last_ops.clear();
        // the type between two others, so that reading too little or too much shows
        std::vector<int> ts; for (int k = rnd(g, 3); k > 0; --k) ts.push_back(rnd(g, n));
        ts.push_back(t); for (int k = rnd(g, 3); k > 0; --k) ts.push_back(rnd(g, n));
        std::vector<Entry> es;
        log << reset;
        std::string b = stored(g, ts, round % 4 == 1 ? 12 : round % 4 == 3 ? 60 : 3, es, log);
        read(g, b, es, log);
        ++histories;
        if (Kind == 3) continue; // a hashed block that is cut is reported as damaged (C05)
        // every prefix (or a random choice of `cuts` of them)
        std::vector<size_t> at;
        if ((int)b.size() <= cuts) for (size_t k = 0; k < b.size(); ++k) at.push_back(k);
        else { for (int k = 0; k < cuts; ++k) at.push_back(rnd(g, (int)b.size())); size_t s = 0; for (auto& e : es) { s += e.len; if (s < b.size()) at.push_back(s); if (s) at.push_back(s - 1); } }
        for (size_t k : at)
        {
            vk::progress();
            log << "{\"o\":[\"cut\"," << k << "],\"r\":\"\"}\n";
            vk::note("cut " + std::to_string(k));
            read(g, b.substr(0, k), es, log);
            ++reads;
        }
    }
    log.flush();
    printf("OK types=%d histories=%ld cuts=%ld\n", n, histories, reads);
}
