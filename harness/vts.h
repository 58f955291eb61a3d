// C06: version tolerant reading against spec/VtsTrace.tla; the structures are generated by tools/vtsgen.py
#include "vk.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/EnumTraits.h"
#include "Awl/Decimal.h"
#include <array>
#include <atomic>
#include <chrono>
#include <limits>
#include <optional>
#include <variant>
using vk::Val; using vk::Rng; using vk::rnd;
namespace vts
{
    AWL_SEQUENTIAL_ENUM(Colour, Red, Green, Blue)
}
AWL_ENUM_TRAITS(vts, Colour)
namespace vts
{
    // ---- making values ----
    template <class T> requires std::is_integral_v<T> void gen(Rng& g, T& v)
    {
        if constexpr (std::is_same_v<T, bool>) v = rnd(g, 2);
        else v = rnd(g, 4) ? T(g()) : rnd(g, 2) ? std::numeric_limits<T>::max() : T(0);
    }
    template <class T> requires std::is_floating_point_v<T> void gen(Rng& g, T& v) { v = T(rnd(g, 2000) - 1000) / 8; }
    inline void gen(Rng& g, Colour& v) { v = Colour(rnd(g, 3)); }
    inline void gen(Rng& g, std::string& v) { v.clear(); for (int n = rnd(g, 3) ? rnd(g, 5) : rnd(g, 40); n > 0; --n) v.push_back(char(g())); }
    inline void gen(Rng& g, awl::decimal<uint64_t, 4>& v) { v = awl::decimal<uint64_t, 4>(int64_t(rnd(g, 100000)), 3); }
    inline void gen(Rng& g, std::chrono::system_clock::time_point& v) { v = std::chrono::system_clock::time_point(std::chrono::nanoseconds(int64_t(g() >> 2))); }
    inline void gen(Rng& g, std::set<int32_t>& v) { v.clear(); for (int n = rnd(g, 4); n > 0; --n) v.insert(rnd(g, 100)); }
    inline void gen(Rng& g, std::atomic<int32_t>& v) { v = (int32_t)g(); }
    inline void gen(Rng& g, std::unique_ptr<std::string>& v) { v.reset(); if (rnd(g, 2)) { v = std::make_unique<std::string>(); gen(g, *v); } }
    template <class T> void gen(Rng& g, std::vector<T>& v);
    template <class T, size_t N> void gen(Rng& g, std::array<T, N>& v);
    template <class T> void gen(Rng& g, std::optional<T>& v);
    template <class T> void gen(Rng& g, std::shared_ptr<T>& v);
    template <class K, class T> void gen(Rng& g, std::map<K, T>& v);
    template <class... T> void gen(Rng& g, std::variant<T...>& v);
    template <class T> requires awl::is_tuplizable_v<T> void gen(Rng& g, T& v) { std::apply([&](auto&... f) { (gen(g, f), ...); }, v.as_tuple()); }
    template <class T> void gen(Rng& g, std::vector<T>& v) { v.clear(); for (int n = rnd(g, 4); n > 0; --n) { v.emplace_back(); gen(g, v.back()); } }
    template <class T, size_t N> void gen(Rng& g, std::array<T, N>& v) { for (auto& t : v) gen(g, t); }
    template <class T> void gen(Rng& g, std::optional<T>& v) { v.reset(); if (rnd(g, 3)) { v.emplace(); gen(g, *v); } }
    template <class T> void gen(Rng& g, std::shared_ptr<T>& v) { v.reset(); if (rnd(g, 3)) { v = std::make_shared<T>(); gen(g, *v); } }
    template <class K, class T> void gen(Rng& g, std::map<K, T>& v) { v.clear(); for (int n = rnd(g, 3); n > 0; --n) { K k; gen(g, k); gen(g, v[k]); } }
    template <size_t I, class V> void gen_alt(Rng& g, V& v, size_t i) { if constexpr (I < std::variant_size_v<V>) { if (i == I) { v.template emplace<I>(); gen(g, std::get<I>(v)); } else gen_alt<I + 1>(g, v, i); } }
    template <class... T> void gen(Rng& g, std::variant<T...>& v) { gen_alt<0>(g, v, rnd(g, sizeof...(T))); }

    // ---- describing values: every value is an array with a tag ----
    inline Val s(std::string x) { return Val::t("s", x); }
    inline std::string hex(const void* p, size_t n) { std::string o; char t[4]; for (size_t i = 0; i < n; ++i) { snprintf(t, sizeof t, "%02x", ((const unsigned char*)p)[i]); o += t; } return o; }
    template <class T> requires std::is_integral_v<T> Val dump(const T& v) { return s(std::to_string(v)); }
    template <class T> requires std::is_floating_point_v<T> Val dump(const T& v) { return s(hex(&v, sizeof v)); }
    inline Val dump(const Colour& v) { return s(std::to_string(int(v))); }
    inline Val dump(const std::string& v) { return s(hex(v.data(), v.size())); }
    inline Val dump(const awl::decimal<uint64_t, 4>& v) { return s(std::to_string(v.to_bits())); }
    inline Val dump(const std::chrono::system_clock::time_point& v) { return s(std::to_string(v.time_since_epoch().count())); }
    inline Val dump(const std::set<int32_t>& v) { std::string o; for (int x : v) o += std::to_string(x) + ","; return s(o); }
    inline Val dump(const std::atomic<int32_t>& v) { return s(std::to_string(v.load())); }
    inline Val dump(const std::unique_ptr<std::string>& v) { return s(v ? "*" + hex(v->data(), v->size()) : "null"); }
    template <class T> Val dump(const std::vector<T>& v);
    template <class T, size_t N> Val dump(const std::array<T, N>& v);
    template <class T> Val dump(const std::optional<T>& v);
    template <class T> Val dump(const std::shared_ptr<T>& v);
    template <class K, class T> Val dump(const std::map<K, T>& v);
    template <class... T> Val dump(const std::variant<T...>& v);
    template <class T> requires awl::is_tuplizable_v<T> Val dump(const T& v) { Val o = Val::t("t"); std::apply([&](auto&... f) { (o.push(dump(f)), ...); }, v.as_const_tuple()); return o; }
    template <class T> Val dump(const std::vector<T>& v) { Val o = Val::t("v"); for (auto& x : v) o.push(dump(x)); return o; }
    template <class T, size_t N> Val dump(const std::array<T, N>& v) { Val o = Val::t("a"); for (auto& x : v) o.push(dump(x)); return o; }
    template <class T> Val dump(const std::optional<T>& v) { Val o = Val::t("o"); if (v) o.push(dump(*v)); return o; }
    template <class T> Val dump(const std::shared_ptr<T>& v) { Val o = Val::t("p"); if (v) o.push(dump(*v)); return o; }
    template <class K, class T> Val dump(const std::map<K, T>& v) { Val o = Val::t("m"); for (auto& [k, x] : v) { Val e; e.push(dump(k)); e.push(dump(x)); o.push(e); } return o; }
    template <class... T> Val dump(const std::variant<T...>& v) { Val o = Val::t("x", std::to_string(v.index())); std::visit([&](auto& a) { o.push(dump(a)); }, v); return o; }

    using namespace awl::io;
    inline Val error() { return Val::t("error"); }
    struct In : VectorInputStream { using VectorInputStream::VectorInputStream; };

    // Several values of the old version are written into a stream and read as the new version.
    template <class Old, class New, class VO, class VN, class VO1, class VN1>
    void run(int family, Rng& g, int rounds, std::ostream& log)
    {
        auto line = [&](const char* op, const Val& v, const Val& init, const Val& r)
        {
            log << "{\"o\":[\"" << op << "\"," << family << "," << v.str() << "," << init.str() << "],\"r\":" << r.str() << "}\n";
        };
        for (int round = 0; round < rounds; ++round)
        {
            Old a[3]; New b[3]; std::vector<uint8_t> v; size_t at[4];
            {
                VectorOutputStream o(v);
                Writer<VO> w;
                w.WriteNewPrototypes(o);
                for (int i = 0; i < 3; ++i) { gen(g, a[i]); at[i] = v.size(); w.WriteV(o, a[i]); }
                at[3] = v.size();
                Write(o, uint32_t(0xabcdef01));
            }
            Reader<VN> r;
            auto in = std::make_unique<VectorInputStream>(v);
            auto seek = [&](size_t p) { in = std::make_unique<VectorInputStream>(v); std::vector<uint8_t> t(p); in->Read(t.data(), p); };
            try { r.ReadOldPrototypes(*in); }
            catch (const awl::Exception&) { line("prototypes", Val::t("s", "0"), Val::t("s", "0"), error()); continue; }
            for (int i = 0; i < 3; ++i)
            {
                Val init = dump(b[i]), got;
                vk::note("family " + std::to_string(family) + " " + dump(a[i]).str());
                try { r.ReadV(*in, b[i]); got = dump(b[i]); }
                catch (const EndOfFileException&) { got = Val::t("eof"); }
                catch (const awl::Exception&) { got = error(); }
                catch (const std::exception&) { got = Val::t("another exception"); }
                line("read", dump(a[i]), init, got);
                if (got.name() != "t") seek(at[i + 1]);
            }
            uint32_t end = 0;
            try { Read(*in, end); } catch (const awl::Exception&) {}
            if (end != 0xabcdef01 || !in->End()) line("consumed", Val::t("s", "0"), Val::t("s", "0"), Val::t("s", "1"));
        }
        for (int round = 0; round < rounds; ++round)
        {
            Old a; New b; gen(g, a);
            // the object is replaced as a whole when its type can be moved
            if (std::is_move_assignable_v<New>) gen(g, b);
            std::vector<uint8_t> v;
            { VectorOutputStream o(v); VersionTolerantSerializable<Old, SequentialInputStream, SequentialOutputStream, true, VO1> w(a); w.Write(o); Write(o, uint32_t(0xabcdef01)); }
            Val before = dump(b), init = std::is_move_assignable_v<New> ? dump(New{}) : before, got;
            vk::note("family " + std::to_string(family) + " serializable " + dump(a).str());
            VectorInputStream in(v);
            try
            {
                VersionTolerantSerializable<New, SequentialInputStream, SequentialOutputStream, true, VN1> r(b); r.Read(in); got = dump(b);
                uint32_t end = 0; Read(in, end);
                if (end != 0xabcdef01 || !in.End()) got = Val::t("not consumed");
            }
            catch (const EndOfFileException&) { got = Val::t("eof"); }
            catch (const awl::Exception&) { got = dump(b).str() == before.str() ? error() : Val::t("error with a changed object"); }
            line("read", dump(a), init, got);
        }
    }
    using Run = void (*)(int, Rng&, int, std::ostream&);
    inline int main(int argc, char** argv, std::vector<Run> runs)
    {
        vk::install();
        if (argc < 4) return 2;
        Rng g(strtoul(argv[1], 0, 10));
        std::ofstream log(argv[3]);
        for (size_t k = 0; k < runs.size(); ++k) { log << "{\"o\":[\"reset\"],\"r\":[]}\n"; runs[k]((int)k + 1, g, atoi(argv[2]), log); }
        log.flush();
        printf("OK families=%d\n", (int)runs.size());
        return 0;
    }
}
