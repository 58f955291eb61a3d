// C51: the stored form against spec/Wire.tla. Type K of the harness is Types[K] of the specification.
#include "vk.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Reflection.h"
#include "Awl/EnumTraits.h"
#include "Awl/BitMap.h"
#include "Awl/Ring.h"
#include "Awl/VectorSet.h"
#include "Awl/ObservableSet.h"
#include "Awl/Decimal.h"
#include <bit>
using vk::Val; using vk::Rng;
#ifdef DECODE
// A size that is read can be any: more than a few megabytes are not given.
static bool reading = false;
static void* give(size_t n) { void* p = reading && n > (4 << 20) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return give(n); }
void* operator new[](size_t n) { return give(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
namespace wire
{
    AWL_SEQUENTIAL_ENUM(Colour, Red, Green, Blue, White, Black)
    AWL_SEQUENTIAL_ENUM(Bits9, B0, B1, B2, B3, B4, B5, B6, B7, B8)
}
AWL_ENUM_TRAITS(wire, Colour)
AWL_ENUM_TRAITS(wire, Bits9)
namespace wire
{
    enum class Big : int64_t {}; enum Small : uint8_t {};
    struct Point { int32_t x = 0; int16_t y = 0; AWL_REFLECT(x, y) };
    struct Named { std::string n; std::optional<int32_t> o; std::vector<bool> f; AWL_TUPLIZABLE(n, o, f) };
    struct Segment { Point a; bool on = false; Point b_2; std::string Note; Colour c = Colour::Red; AWL_REFLECT(a, on, b_2, Note, c) };
    using clock = std::chrono::system_clock;
    template <class D> using Time = std::chrono::time_point<clock, D>;
    using Ns = Time<std::chrono::nanoseconds>; using Sec = Time<std::chrono::seconds>;
    struct Deep
    {
        std::variant<int32_t, std::string, Point> v; std::map<std::string, std::vector<Point>> m; std::shared_ptr<Point> p; std::set<int16_t> s; std::array<Point, 2> ps;
        Ns t; awl::decimal<uint64_t, 4> d; uint32_t u = 0; std::vector<bool> flags; std::vector<Segment> l;
        AWL_REFLECT(v, m, p, s, ps, t, d, u, flags, l)
    };
    struct Flags { std::atomic<int32_t> i{ 0 }; std::unique_ptr<std::string> u; Big e{}; float f = 0; Segment seg; AWL_REFLECT(i, u, e, f, seg) };
    struct Grown { int32_t x = 0; Point p; AWL_REFLECT(x, p) };
    struct One { std::optional<std::optional<int16_t>> only; AWL_REFLECT(only) };
}
namespace awl::mp { template <> struct type_converter<wire::Grown> { using extra_tuple = std::tuple<int8_t, std::vector<std::string>, int32_t>; }; }
namespace wire
{
    template <class T> struct W;
    template <class T> Val show(const T& x) { return W<T>::show(x); }
    template <class T> void get(const Val& v, T& x) { W<T>::get(v, x); }
    int size(Rng& r) { int k = vk::rnd(r, 6); return k == 0 ? 0 : k == 1 ? vk::rnd(r, 12) : vk::rnd(r, 4); }
    template <class T> Val any(Rng& r) { return W<T>::any(r); }
    template <size_t N> struct UInt; template <> struct UInt<1> { using T = uint8_t; }; template <> struct UInt<2> { using T = uint16_t; };
    template <> struct UInt<4> { using T = uint32_t; }; template <> struct UInt<8> { using T = uint64_t; };
    template <class U> Val bytes(U u) { Val v; for (size_t i = 0; i < sizeof(U); ++i) v.push(int((uint64_t(u) >> (8 * i)) & 255)); return v; }
    template <class U> U number(const Val& v) { uint64_t u = 0; for (size_t i = 0; i < sizeof(U); ++i) u |= uint64_t(v.n(i)) << (8 * i); return U(u); }
    Val noise(Rng& r, int n) { Val v; bool few = vk::rnd(r, 2); for (int i = 0; i < n; ++i) v.push(few ? (vk::rnd(r, 4) ? 0 : vk::rnd(r, 256)) : vk::rnd(r, 256)); return v; }
    template <class T> requires (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) struct W<T>
    {
        using U = typename UInt<sizeof(T)>::T;
        static Val show(T x) { return bytes(std::bit_cast<U>(x)); }
        static void get(const Val& v, T& x) { x = std::bit_cast<T>(number<U>(v)); }
        static Val any(Rng& r) { Val v = noise(r, sizeof(T)); if (std::is_floating_point_v<T>) v.a[sizeof(T) - 1] = vk::rnd(r, 2) * 128 + 60; return v; }
    };
    template <> struct W<bool> { static Val show(bool x) { return int(x); } static void get(const Val& v, bool& x) { x = v.i; } static Val any(Rng& r) { return vk::rnd(r, 2); } };
    template <class T> requires std::is_enum_v<T> struct W<T>
    {
        using U = std::underlying_type_t<T>;
        static Val show(T x) { return wire::show(U(x)); }
        static void get(const Val& v, T& x) { U u; wire::get(v, u); x = T(u); }
        static Val any(Rng& r) { if constexpr (std::is_same_v<T, Colour>) return bytes(uint8_t(vk::rnd(r, 5))); else return wire::any<U>(r); }
    };
    // a container of T whose elements are added by add
    template <class C, class T, class A> void fill(const Val& v, C& c, A add) { c.clear(); for (auto& e : v.a) { T x{}; wire::get(e, x); add(std::move(x)); } }
    template <class C> Val each(const C& c) { Val v; for (const auto& x : c) v.push(wire::show<std::decay_t<decltype(x)>>(x)); return v; }
    template <class T> Val many(Rng& r, int n) { Val v; for (; n > 0; --n) v.push(wire::any<T>(r)); return v; }
    template <class C> struct W<std::basic_string<C>>
    {
        using S = std::basic_string<C>;
        static Val show(const S& s) { return each(s); }
        static void get(const Val& v, S& s) { fill<S, C>(v, s, [&](C c) { s.push_back(c); }); }
        static Val any(Rng& r) { return many<C>(r, vk::rnd(r, 8) ? size(r) : vk::rnd(r, 300)); }
    };
    template <class C, class T> struct WBack
    {
        static Val show(const C& c) { return each(c); }
        static void get(const Val& v, C& c) { fill<C, T>(v, c, [&](T x) { c.push_back(std::move(x)); }); }
        static Val any(Rng& r) { return many<T>(r, vk::rnd(r, 8) || sizeof(T) > 8 ? size(r) : vk::rnd(r, 100)); }
    };
    template <class T> struct W<std::vector<T>> : WBack<std::vector<T>, T> {};
    template <> struct W<std::vector<bool>>
    {
        static Val show(const std::vector<bool>& c) { Val v; for (size_t i = 0; i < c.size(); ++i) v.push(int(c[i])); return v; }
        static void get(const Val& v, std::vector<bool>& c) { c.clear(); for (auto& e : v.a) c.push_back(e.i); }
        static Val any(Rng& r) { return many<bool>(r, vk::rnd(r, 40)); }
    };
    template <class T> struct W<std::deque<T>> : WBack<std::deque<T>, T> {};
    template <class T> struct W<awl::ring<T>>
    {
        using C = awl::ring<T>;
        static Val show(const C& c) { return each(c); }
        static void get(const Val& v, C& c) { c = C(v.size() + 3); fill<C, T>(v, c, [&](T x) { c.push_back(std::move(x)); }); }
        static Val any(Rng& r) { return many<T>(r, size(r)); }
    };
    template <class C, class T, int limit = 1000> struct WSet
    {
        static Val show(const C& c) { return each(c); }
        static void get(const Val& v, C& c) { fill<C, T>(v, c, [&](T x) { c.insert(std::move(x)); }); }
        static Val any(Rng& r) { return many<T>(r, std::min(limit, size(r))); }
    };
    template <class T> struct W<std::set<T>> : WSet<std::set<T>, T> {};
    template <class T> struct W<awl::vector_set<T>> : WSet<awl::vector_set<T>, T> {};
    template <class T> struct W<awl::observable_set<T>> : WSet<awl::observable_set<T>, T> {};
    template <class T> struct W<std::unordered_set<T>> : WSet<std::unordered_set<T>, T, 1> {};
    template <class A, class B> struct W<std::pair<A, B>>
    {
        using P = std::pair<A, B>;
        static Val show(const P& p) { return Val::t(wire::show<std::decay_t<A>>(p.first), wire::show(p.second)); }
        static void get(const Val& v, P& p) { wire::get(v[0], p.first); wire::get(v[1], p.second); }
        static Val any(Rng& r) { return Val::t(wire::any<A>(r), wire::any<B>(r)); }
    };
    template <class M, class A, class B, int limit = 1000> struct WMap
    {
        static Val show(const M& m) { Val v; for (auto& [a, b] : m) v.push(Val::t(wire::show(a), wire::show(b))); return v; }
        static void get(const Val& v, M& m) { m.clear(); for (auto& e : v.a) { A a{}; B b{}; wire::get(e[0], a); wire::get(e[1], b); m.emplace(std::move(a), std::move(b)); } }
        static Val any(Rng& r) { return many<std::pair<A, B>>(r, std::min(limit, size(r))); }
    };
    template <class A, class B> struct W<std::map<A, B>> : WMap<std::map<A, B>, A, B> {};
    template <class A, class B> struct W<std::unordered_map<A, B>> : WMap<std::unordered_map<A, B>, A, B, 1> {};
    template <class T, size_t N> struct W<std::array<T, N>>
    {
        using A = std::array<T, N>;
        static Val show(const A& a) { return each(a); }
        static void get(const Val& v, A& a) { for (size_t i = 0; i < N; ++i) wire::get(v[i], a[i]); }
        static Val any(Rng& r) { return many<T>(r, N); }
    };
    template <size_t N> struct W<std::bitset<N>>
    {
        static Val show(const std::bitset<N>& b) { Val v; for (size_t i = 0; i < N; ++i) v.push(int(b[i])); return v; }
        static void get(const Val& v, std::bitset<N>& b) { for (size_t i = 0; i < N; ++i) b[i] = v[i].i; }
        static Val any(Rng& r) { return many<bool>(r, N); }
    };
    template <class E, std::underlying_type_t<E> N> struct W<awl::bitmap<E, N>>
    {
        using B = awl::bitmap<E, N>;
        static Val show(const B& b) { Val v; for (int i = 0; i < N; ++i) v.push(int(b[E(i)])); return v; }
        static void get(const Val& v, B& b) { for (int i = 0; i < N; ++i) b[E(i)] = v[i].i != 0; }
        static Val any(Rng& r) { return many<bool>(r, N); }
    };
    template <class P, class T> struct WOpt
    {
        static Val show(const P& p) { Val v; if (p) v.push(wire::show<T>(*p)); return v; }
        static void get(const Val& v, P& p) { p = {}; if (v.size()) { T x{}; wire::get(v[0], x); make(p, x); } }
        static void make(std::optional<T>& p, T& x) { p = std::move(x); } static void make(std::shared_ptr<T>& p, T& x) { p = std::make_shared<T>(x); } static void make(std::unique_ptr<T>& p, T& x) { p = std::make_unique<T>(x); }
        static Val any(Rng& r) { return many<T>(r, vk::rnd(r, 2)); }
    };
    template <class T> struct W<std::optional<T>> : WOpt<std::optional<T>, T> {};
    template <class T> struct W<std::shared_ptr<T>> : WOpt<std::shared_ptr<T>, T> {};
    template <class T> struct W<std::unique_ptr<T>> : WOpt<std::unique_ptr<T>, T> {};
    template <class... T> struct W<std::variant<T...>>
    {
        using V = std::variant<T...>;
        static Val show(const V& v) { return Val::t((int)v.index(), std::visit([](auto& x) { return wire::show(x); }, v)); }
        template <size_t... I> static void put(const Val& v, V& x, std::index_sequence<I...>) { ((v.n(0) == (int)I ? wire::get(v[1], x.template emplace<I>()) : void()), ...); }
        static void get(const Val& v, V& x) { put(v, x, std::make_index_sequence<sizeof...(T)>()); }
        static Val any(Rng& r) { int k = vk::rnd(r, sizeof...(T)); Val v; int i = 0; ((i++ == k ? (v = wire::any<T>(r), 0) : 0), ...); return Val::t(k, v); }
    };
    template <uint8_t E> struct W<awl::decimal<uint64_t, E>>
    {
        using D = awl::decimal<uint64_t, E>;
        static Val show(const D& d) { return Val::t(int(!d.positive()), int(d.exponent()), bytes(uint64_t(d.unsigned_mantissa()))); }
        static void get(const Val& v, D& d) { int64_t m = number<uint64_t>(v[2]); d = D(v.n(0) ? -m : m, v.n(1)); }
        static Val any(Rng& r) { Val m = noise(r, 8); m.a[7] = vk::rnd(r, 3) ? 0 : 1; m.a[0] = 1 + vk::rnd(r, 255); return Val::t(vk::rnd(r, 2), vk::rnd(r, 16), m); }
    };
    template <class D> struct W<Time<D>>
    {
        static Val show(const Time<D>& t) { return bytes(uint64_t(t.time_since_epoch().count())); }
        static void get(const Val& v, Time<D>& t) { t = Time<D>(D(int64_t(number<uint64_t>(v)))); }
        static Val any(Rng& r) { int64_t n = int64_t(r() % 9000000000ull) * (vk::rnd(r, 2) ? 1 : -1); return bytes(uint64_t(n)); }
    };
    template <class T> struct W<std::atomic<T>>
    {
        static Val show(const std::atomic<T>& t) { return wire::show<T>(t.load()); }
        static void get(const Val& v, std::atomic<T>& t) { T x; wire::get(v, x); t = x; }
        static Val any(Rng& r) { return wire::any<T>(r); }
    };
    template <class T> requires awl::is_tuplizable_v<T> struct W<T>
    {
        static Val show(const T& x) { Val v; std::apply([&](auto&... f) { (v.push(wire::show<std::decay_t<decltype(f)>>(f)), ...); }, x.as_const_tuple()); return v; }
        static void get(const Val& v, T& x) { size_t i = 0; std::apply([&](auto&... f) { (wire::get(v[i++], f), ...); }, x.as_tuple()); }
        static Val any(Rng& r) { Val v; T* p = nullptr; fields<decltype(p->as_tuple())>(r, v); return v; }
        template <class U> static void fields(Rng& r, Val& v) { [&]<size_t... I>(std::index_sequence<I...>) { (v.push(wire::any<std::remove_reference_t<std::tuple_element_t<I, U>>>(r)), ...); }(std::make_index_sequence<std::tuple_size_v<U>>()); }
    };
    using std::string; using std::vector; using std::array; using std::optional;
    using Types = std::tuple<void, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, bool, float, double, char,
        string, std::wstring, std::u16string,
        vector<int16_t>, vector<double>, vector<bool>, vector<string>, vector<vector<uint8_t>>, vector<Point>, vector<optional<bool>>,
        array<int32_t, 3>, array<string, 2>, array<bool, 11>, std::bitset<9>, std::bitset<16>, awl::bitmap<Bits9, 9>,
        std::deque<int16_t>, std::set<int16_t>, std::set<string>, awl::vector_set<int16_t>, awl::observable_set<int16_t>,
        std::unordered_set<int16_t>, awl::ring<int16_t>,
        std::map<string, int16_t>, std::map<int16_t, vector<Point>>, std::unordered_map<int16_t, string>,
        vector<std::map<int16_t, vector<int8_t>>>, optional<int32_t>, optional<Point>, std::shared_ptr<string>, std::unique_ptr<uint16_t>,
        std::variant<int32_t, string, double>, std::variant<bool>, Colour, Big, Small, awl::decimal<uint64_t, 4>, awl::decimal<uint64_t, 5>,
        Ns, Sec, std::atomic<int32_t>, std::atomic<bool>, Point, Named, Segment, Deep, Flags, Grown, One>;
    constexpr int count = std::tuple_size_v<Types> - 1;
    template <class T> concept named = requires { awl::mp::make_type_name<T>(); };
    template <class T> concept set_of_text = std::is_same_v<T, std::bitset<9>> || std::is_same_v<T, std::bitset<16>> || std::is_same_v<T, awl::bitmap<Bits9, 9>> || std::is_same_v<T, Named>;
    using Bytes = std::vector<uint8_t>;
    Val text(const Bytes& b) { Val v; for (auto x : b) v.push((int)x); return v; }
    template <class T> void fresh(T& x) { if constexpr (std::is_same_v<T, awl::ring<int16_t>>) x = T(400); }

    template <class T> Val plain(const Val& o)
    {
        using namespace awl::io;
        T x{}; wire::get(o, x);
        Bytes b; { VectorOutputStream out(b); Write(out, x); }
        MeasureStream m; Write(m, x); if (m.GetLength() != b.size()) return Val("measured another length");
        { std::ostringstream s; StdOutputStream out(s); Write(static_cast<SequentialOutputStream&>(out), x); if (std::string(b.begin(), b.end()) != s.str()) return Val("a standard stream gets other bytes"); }
        if constexpr (std::is_move_assignable_v<T> && awl::is_tuplizable_v<T>)
        {
            Bytes c; VectorOutputStream out(c); PlainSerializable<T, SequentialInputStream, SequentialOutputStream> p(x); p.Write(out);
            if (c != b) return Val("PlainSerializable writes other bytes");
        }
        T y{}; fresh(y); VectorInputStream in(b); Read(in, y); if (!in.End()) return Val("something is not read");
        return Val::t(text(b), wire::show(y));
    }
    template <class T> Val name()
    {
        if constexpr (!set_of_text<T>)
        {
            constexpr auto n = awl::mp::make_type_name<T>(); std::string s; for (size_t i = 0; i < n.size(); ++i) s += n[i];
            return Val(s);
        }
        else return Val("has no name");
    }
    template <class T> Val vts(const Val& o)
    {
        using namespace awl::io;
        T x{}; wire::get(o, x);
        Bytes b; { VectorOutputStream out(b); SequentialOutputStream& s = out; WriteV(s, x); }
        { Bytes c; VectorOutputStream out(c); VersionTolerantSerializable<T> v(x); v.Write(out); if (b != c) return Val("VersionTolerantSerializable writes other bytes"); }
        { MeasureStream m; WriteV(m, x); if (m.GetLength() != b.size()) return Val("measured another length"); }
        T y{}; VectorInputStream in(b); SequentialInputStream& s = in; ReadV(s, y); if (!in.End()) return Val("something is not read");
        return Val::t(text(b), wire::show(y));
    }
    template <class S, class T, class Make> Val stored(const Val& o, Make make)
    {
        using namespace awl::io;
        T x{}; wire::get(o, x); std::unique_ptr<S> w(make(x));
        Bytes b; { VectorOutputStream out(b); w->Write(out); }
        { Bytes c; auto snapshot = w->MakeShanshot(); VectorOutputStream out(c); w->WriteSnapshot(out, snapshot); if (b != c) return Val("a snapshot has other bytes"); }
        T y{}; std::unique_ptr<S> r(make(y)); VectorInputStream in(b); r->Read(in); if (!in.End()) return Val("something is not read");
        return Val::t(text(b), wire::show(y));
    }
#ifdef DECODE
    Bytes take(const Val& v) { Bytes b; for (auto& x : v.a) b.push_back((uint8_t)x.i); b.shrink_to_fit(); return b; }
    // A value and how many bytes it took, or "refused".
    template <class T, class F> Val read_into(const Bytes& b, T& y, F read)
    {
        awl::io::VectorInputStream in(b);
        bool ok = false; reading = true;
        try { read(in, y); ok = true; } catch (const awl::io::IoException& e) { e.What(); } catch (const std::length_error&) {} catch (const std::bad_alloc&) {}
        reading = false;
        if (!ok) return Val("refused");
        Val shown = wire::show(y);
        int left = 0; uint8_t c; while (in.Read(&c, 1)) ++left;
        return Val::t(shown, int(b.size()) - left);
    }
    // What was in an object before does not matter.
    template <class T, class F> Val outcome(const Val& bytes, F read, bool again = true)
    {
        const Bytes b = take(bytes); auto y = std::make_unique<T>(); fresh(*y);
        const Val v = read_into(b, *y, read);
        if (!again) return v;
        static std::unique_ptr<T> used;
        if (used) { const Val w = read_into(b, *used, read); if (w.str() != v.str()) return Val("into a used object: " + w.str()); }
        if (v.kind == Val::Arr) used = std::move(y);
        return v;
    }
    template <int K> Val decode(const Val& o)
    {
        using namespace awl::io; using T = std::tuple_element_t<K, Types>;
        const std::string& op = o.name();
        if (op == "read") return outcome<T>(o[2], [](auto& in, T& y) { Read(in, y); });
        constexpr bool has_text = K == 13 || K == 14 || K == 15 || K == 19 || K == 24 || K == 36 || K == 42 || K == 44 || K == 56 || K == 57;
        if constexpr (has_text)
        {
            const LimitedContext limit((size_t)o.n(2));
            if (op == "limited") return outcome<T>(o[3], [&](auto& in, T& y) { Read(in, y, limit); });
            if (op == "within") try { T x{}; wire::get(o[3], x); Bytes b; VectorOutputStream out(b); Write(out, x, limit); return text(b); } catch (const IoException&) { return Val("refused"); }
        }
        if constexpr (awl::is_reflectable_v<T>)
        {
            if (op == "vread") return outcome<T>(o[2], [](auto& in, T& y) { SequentialInputStream& s = in; ReadV(s, y); });
            if (op == "mangled") { outcome<T>(o[2], [](auto& in, T& y) { SequentialInputStream& s = in; ReadV(s, y); }, false); return Val("survived"); }
        }
        return Val("?");
    }
    Val put(int x) { Bytes b; try { awl::io::VectorOutputStream out(b); awl::io::Write(out, Colour(x)); return text(b); } catch (const awl::io::IoException& e) { e.What(); return Val("refused"); } }
    template <int K> Val damaged(Rng& r)
    {
        using namespace awl::io; using T = std::tuple_element_t<K, Types>;
        T x{}; wire::get(wire::any<T>(r), x); Bytes b;
        std::string op = "read"; VectorOutputStream out(b);
        if constexpr (awl::is_reflectable_v<T>) { if (vk::rnd(r, 2)) op = "mangled"; }
        if constexpr (awl::is_reflectable_v<T>) { if (op == "mangled") { SequentialOutputStream& s = out; WriteV(s, x); } else Write(out, x); } else Write(out, x);
        for (int k = vk::rnd(r, 4); k > 0; --k)
        {
            int n = (int)b.size(), p = n ? vk::rnd(r, n) : 0, small[] = { 0, 1, 2, 3, 255, 128, 4, 7 };
            switch (n ? vk::rnd(r, 7) : 4)
            {
            case 0: b.resize(p); break;
            case 1: b.erase(b.begin() + p); break;
            case 2: b.insert(b.begin() + p, vk::rnd(r, 256)); break;
            case 3: b[p] ^= 1 << vk::rnd(r, 8); break;
            case 4: for (int j = vk::rnd(r, 10); j > 0; --j) b.push_back(vk::rnd(r, 3) ? 0 : vk::rnd(r, 256)); break;
            case 5: b[p] = small[vk::rnd(r, 8)]; break;
            default: { int q = vk::rnd(r, n); b[p] = b[q]; }
            }
        }
        return Val::t(op, K, text(b));
    }
#endif
    template <int K> Val run(const Val& o)
    {
#ifdef DECODE
        return decode<K>(o);
#else
        using T = std::tuple_element_t<K, Types>;
        const std::string& op = o.name();
        if (op == "plain") return plain<T>(o[2]);
        if (op == "name") return name<T>();
        if constexpr (awl::is_reflectable_v<T>)
        {
            if (op == "vts") return vts<T>(o[2]);
            const size_t block = o.n(2);
            if (op == "hashed") { using S = awl::io::EuphoricallySerializable<T>; return stored<S, T>(o[3], [&](T& x) { return block == awl::io::defaultBlockSize ? new S(x) : new S(x, block); }); }
            std::string format; for (auto& c : o[4].a) format += char(c.i);
            using S = awl::io::HeaderedSerializable<T>;
            return stored<S, T>(o[3], [&](T& x) { awl::io::Header h{ format, size_t(o.n(5)) }; return block == awl::io::defaultBlockSize ? new S(h, x) : new S(h, x, block); });
        }
        return Val("?");
#endif
    }
    template <int K> Val pick(Rng& r)
    {
#ifdef DECODE
        if constexpr (K == 34 || K == 38) return Val::t("put", vk::rnd(r, 256)); else return damaged<K>(r);
#else
        using T = std::tuple_element_t<K, Types>;
        T x{}; wire::get(wire::any<T>(r), x); Val v = wire::show(x);
        if constexpr (awl::is_reflectable_v<T>)
        {
            auto block = [&] { int b[] = { 9, 12, 16, 40, 100, 65536 }; return b[vk::rnd(r, 6)]; };
            switch (vk::rnd(r, 4))
            {
            case 0: return Val::t("vts", K, v);
            case 1: return Val::t("hashed", K, block(), v);
            case 2: return Val::t("file", K, block(), v, noise(r, vk::rnd(r, 65)), vk::rnd(r, 100000));
            }
        }
        return Val::t("plain", K, v);
#endif
    }
    template <class F> auto on_type(int k, F f) { std::optional<Val> r; [&]<int... I>(std::integer_sequence<int, I...>) { ((k == I + 1 ? (r = f.template operator()<I + 1>(), 0) : 0), ...); }(std::make_integer_sequence<int, count>()); return *r; }
    struct Sut : vk::Sut
    {
        Val apply(const Val& o) override
        {
#ifdef DECODE
            if (o.name() == "put") return put(o.n(1));
#endif
            return on_type(o.n(1), [&]<int K>() { return run<K>(o); });
        }
        Val random_op(Rng& r) override { int k = vk::rnd(r, 3) ? 1 + vk::rnd(r, count) : 55 + vk::rnd(r, 7); return on_type(k, [&]<int K>() { return pick<K>(r); }); }
    };
}
int main(int argc, char** argv) { return vk::main<wire::Sut>(argc, argv); }
