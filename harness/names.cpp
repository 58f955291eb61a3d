// C48: names of enumerators and members against spec/Names.tla.
#include "vk.h"
#include "Awl/EnumTraits.h"
#include "Awl/LogLevel.h"
#include "Awl/Reflection.h"
#include "Awl/Prototype.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/Rw/EnumReadWrite.h"
#include "Awl/Io/SerializationContext.h"
using vk::Val;
namespace demo
{
    AWL_SEQUENTIAL_ENUM(Single, Alone)
    AWL_SEQUENTIAL_ENUM(Dense, A,B_1 ,CC)
    AWL_SEQUENTIAL_ENUM(Mixed, up, Up, UP, down)
    AWL_SEQUENTIAL_ENUM(Lines, z_ ,
        z // a comment
        , /* another */ zz)
    struct Outer { AWL_SEQUENTIAL_ENUM(Kind, X, Y) };
    AWL_SEQUENTIAL_ENUM(Many, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14,
        n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29,
        n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44,
        n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59,
        n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74,
        n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89,
        n90, n91, n92, n93, n94, n95, n96, n97, n98, n99, n100, n101, n102, n103, n104,
        n105, n106, n107, n108, n109, n110, n111, n112, n113, n114, n115, n116, n117, n118, n119,
        n120, n121, n122, n123, n124, n125, n126, n127, n128, n129, n130, n131, n132, n133, n134,
        n135, n136, n137, n138, n139, n140, n141, n142, n143, n144, n145, n146, n147, n148, n149,
        n150, n151, n152, n153, n154, n155, n156, n157, n158, n159, n160, n161, n162, n163, n164,
        n165, n166, n167, n168, n169, n170, n171, n172, n173, n174, n175, n176, n177, n178, n179,
        n180, n181, n182, n183, n184, n185, n186, n187, n188, n189, n190, n191, n192, n193, n194,
        n195, n196, n197, n198, n199, n200, n201, n202, n203, n204, n205, n206, n207, n208, n209,
        n210, n211, n212, n213, n214, n215, n216, n217, n218, n219, n220, n221, n222, n223, n224,
        n225, n226, n227, n228, n229, n230, n231, n232, n233, n234, n235, n236, n237, n238, n239,
        n240, n241, n242, n243, n244, n245, n246, n247, n248, n249, n250, n251, n252, n253, n254)
    enum class Free : uint16_t { First = 7, Other = 1000 };
    struct Empty { AWL_REFLECT() };
    struct One { int a; AWL_REFLECT(a) };
    struct Four { int a; std::string bb; double c_c; std::vector<int> d; AWL_REFLECT(a,bb , c_c,
        d) };
    struct Deep { std::string name; One in; Four in2; int x; AWL_REFLECT(name, in, in2 ,x) };
}
AWL_ENUM_TRAITS(demo, Single)
AWL_ENUM_TRAITS(demo, Dense)
AWL_ENUM_TRAITS(demo, Mixed)
AWL_ENUM_TRAITS(demo, Lines)
AWL_ENUM_TRAITS(demo::Outer, Kind)
AWL_ENUM_TRAITS(demo, Many)
namespace
{
    std::string text(const Val& v) { std::string s; for (auto& c : v.a) s += (char)c.i; return s; }
    Val codes(std::string_view s) { Val v; for (char c : s) v.push((int)(unsigned char)c); return v; }
    template <class F> Val guarded(F f) { try { return Val::t("ok", f()); } catch (const std::runtime_error&) { return Val::t("thrown"); } }
    template <class F> Val io(F f) { try { return Val::t("ok", f()); } catch (const awl::io::IoException&) { return Val::t("thrown"); } }
    using V = std::variant<int, std::string, double, std::vector<int>>;
    struct SkipContext { static constexpr bool validate_values = false; };
    Val show(const awl::Prototype& p)
    {
        Val v; for (size_t i = 0; i < p.GetCount(); ++i) { auto f = p.GetField(i); v.push(Val::t(codes(f.name), f.type == awl::Field::NoType ? -1 : (int)f.type)); }
        return v;
    }
    template <class S> Val members(S s)
    {
        // The names belong to the members of the same positions.
        Val v; const auto& names = S::get_member_names(); const auto& again = S::get_member_names();
        if (&names != &again || awl::is_reflectable_v<S> == false) return Val("not reflected");
        size_t n = 0; auto t = awl::object_as_tuple(s);
        auto one = [&](auto& x)
        {
            using X = std::remove_cvref_t<decltype(x)>;
            int type = std::is_same_v<X, int> ? 0 : std::is_same_v<X, std::string> ? 1 : std::is_same_v<X, double> ? 2 : std::is_same_v<X, std::vector<int>> ? 3 : -1;
            v.push(Val::t(n < names.size() ? codes(names[n]) : Val("no name"), type)); ++n;
        };
        std::apply([&](auto&... x) { (one(x), ...); }, t);
        if (names.size() != n) return Val("the number of names differs");
        if constexpr (std::tuple_size_v<decltype(t)> != 0)
        {
            awl::AttachedPrototype<V, S> a; awl::DetachedPrototype d(a), d2(d);
            if (show(a).str() != v.str() || show(d).str() != v.str() || !(d == d2) || d != d2) return Val("the prototypes differ");
        }
        return v;
    }
    template <class S> Val retype(int i, int type)
    {
        awl::AttachedPrototype<V, S> a; awl::DetachedPrototype d(a), d0(a);
        d.SetFieldType(i, type);
        if ((d == d0) == (d != d0) || show(d0).str() != show(a).str()) return Val("the comparison is inconsistent");
        return Val::t(show(d), int(d == d0));
    }
    struct Sut : vk::Sut
    {
        std::vector<uint8_t> bytes;
        template <class E> Val on(const Val& o)
        {
            const std::string& op = o.name();
            using T = awl::EnumTraits<E>; using I = std::underlying_type_t<E>;
            if (op == "enum")
            {
                Val l; for (auto& s : T::names()) l.push(codes(s));
                if (T::names().size() != l.size()) return Val("the number of names differs");
                return Val::t(T::enum_name(), (int)T::count(), l);
            }
            if (op == "value")
            {
                const I v = (I)o.n(2);
                return Val::t(guarded([&] { return (int)awl::enum_to_index((E)v); }), guarded([&] { return (int)awl::enum_from_index<E>(v); }),
                    guarded([&] { return codes(awl::enum_to_string((E)v)); }), guarded([&] { awl::validate_enum((E)v); return 0; }),
                    guarded([&] { awl::validate_enum_index<E>(v); return 0; }));
            }
            if (op == "name")
            {
                const std::string s = text(o[2]);
                return Val::t(guarded([&] { return (int)awl::enum_from_string<E>(s); }), guarded([&] { return (int)awl::enum_from_string_i<E>(s); }));
            }
            if (op == "write") return io([&] { awl::io::VectorOutputStream out(bytes); awl::io::Write(out, (E)o.n(2)); return 0; });
            // read
            struct Eat { std::vector<uint8_t>& b; size_t n; ~Eat() { b.erase(b.begin(), b.begin() + std::min(n, b.size())); } } eat{ bytes, 1 };
            awl::io::VectorInputStream in(bytes);
            E e = (E)0;
            return io([&] { if (o.n(2)) awl::io::Read(in, e, SkipContext{}); else awl::io::Read(in, e); return (int)e; });
        }
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "raw") { bytes.push_back((uint8_t)o.n(1)); return Val(); }
            if (op == "bytes") { Val v; for (auto b : bytes) v.push((int)b); return v; }
            if (op == "plain") return io([&] { awl::io::VectorOutputStream out(bytes); awl::io::Write(out, (demo::Free)o.n(1)); return 0; });
            if (op == "unplain")
            {
                struct Eat { std::vector<uint8_t>& b; ~Eat() { b.erase(b.begin(), b.begin() + std::min<size_t>(2, b.size())); } } eat{ bytes };
                awl::io::VectorInputStream in(bytes); demo::Free e{};
                return io([&] { awl::io::Read(in, e); return (int)e; });
            }
            if (op == "list" || op == "find")
            {
                std::string s; for (size_t i = 0; i < o[1].size(); ++i) s += (i ? text(o[2][i]) : "") + text(o[1][i]);
                awl::helpers::MemberList l(s.c_str());
                if (op == "list")
                {
                    Val v; for (auto& x : l) v.push(codes(x));
                    for (size_t i = 0; i < l.size(); ++i) if (codes(l[i]).str() != v[i].str()) return Val("the elements differ");
                    return Val::t(l.size(), v, codes(s));
                }
                const std::string name = text(o[3]);
                size_t i = l.find_index(name); int k = i == awl::helpers::MemberList::NotAnIndex ? -1 : (int)i;
                int n = (int)l.size(), a = int(l.find(name) - l.begin()), b = int(l.find_cstr(name.c_str()) - l.cbegin());
                if ((k < 0 ? n : k) != a || a != b) return Val("the ways to find differ");
                return k;
            }
            if (op == "members")
                switch (o.n(1)) { case 1: return members(demo::Empty()); case 2: return members(demo::One()); case 3: return members(demo::Four()); default: return members(demo::Deep()); }
            if (op == "retype")
                switch (o.n(1)) { case 2: return retype<demo::One>(o.n(2), o.n(3)); case 3: return retype<demo::Four>(o.n(2), o.n(3)); default: return retype<demo::Deep>(o.n(2), o.n(3)); }
            switch (o.n(1))
            {
            case 1: return on<demo::Single>(o); case 2: return on<demo::Dense>(o); case 3: return on<demo::Mixed>(o);
            case 4: return on<awl::LogLevel>(o); case 5: return on<demo::Outer::Kind>(o); case 6: return on<demo::Many>(o); default: return on<demo::Lines>(o);
            }
        }
        Val random_op(vk::Rng& r) override
        {
            int e = 1 + vk::rnd(r, 7), v = vk::rnd(r, 2) ? vk::rnd(r, 6) : vk::rnd(r, 256);
            static const char* words[] = { "Alone", "A", "B_1", "CC", "cc", "up", "Up", "UP", "uP", "down", "DOWN", "Debug", "trace", "INFO", "warning", "Error", "X", "y", "n0", "N254", "n255", "n100", "z_", "z", "zz", "ZZ", "", "A,B_1 ,CC", "B_1 ", " CC" };
            switch (vk::rnd(r, 9))
            {
            case 0: return Val::t("value", e, v);
            case 1: return Val::t("name", e, codes(words[vk::rnd(r, 30)]));
            case 2: return Val::t("write", e, v);
            case 3: return Val::t("raw", vk::rnd(r, 2) ? vk::rnd(r, 7) : vk::rnd(r, 256));
            case 4: return Val::t("read", e, int(vk::rnd(r, 4) == 0));
            case 5: return Val::t("plain", vk::rnd(r, 65536));
            case 6: return Val::t("unplain");
            case 7: return Val::t("bytes");
            }
            static const char* seps[] = { ",", ", ", " ,", " , " };
            Val l, s; for (int n = vk::rnd(r, 12); n > 0; --n)
            {
                std::string w; for (int k = 1 + vk::rnd(r, 4); k > 0; --k) w += "ab_Z"[vk::rnd(r, 4)]; l.push(codes(w)); s.push(codes(seps[vk::rnd(r, 4)]));
            }
            if (vk::rnd(r, 2)) return Val::t("list", l, s);
            return Val::t("find", l, s, l.size() && vk::rnd(r, 2) ? l[vk::rnd(r, l.size())] : codes("a"));
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
