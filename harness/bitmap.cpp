// C44: bitmaps against spec/BitMap.tla. TYPE: the number of enumerators and the type of the enumeration.
#include "vk.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Rw/BitMapReadWrite.h"
using vk::Val;
#ifndef COUNT
#define COUNT 3
#endif
namespace e
{
#if COUNT == 3
    AWL_SEQUENTIAL_ENUM(E, A, B, C)
#elif COUNT == 9
    AWL_SEQUENTIAL_ENUM(E, A, B, C, D, F, G, H, I, J)
#elif COUNT < 256
    enum class E : uint8_t {};
#elif COUNT < 400
    enum E : uint16_t {};
#else
    enum class E : int {};
#endif
}
#if COUNT == 3 || COUNT == 9
AWL_ENUM_TRAITS(e, E)
#endif
namespace
{
    using e::E;
#if COUNT == 3 || COUNT == 9
    using B = awl::bitmap<E>;
#else
    using B = awl::bitmap<E, COUNT>;
#endif
    E en(int i) { return static_cast<E>(i); }
    struct Sut : vk::Sut
    {
        static inline int N = COUNT, R = 2; std::vector<B> m; unsigned turn = 0;
        Sut() : m(R + 1) {}
        Val show(const B& b)
        {
            Val l, eq; bool same = true;
            for (int i = 0; i < N; ++i) { if (b.test(en(i))) l.push(i); if (b.test(en(i)) != b[en(i)]) same = false; }
            for (int i = 1; i <= R; ++i)
            {
                eq.push(int(b == m[i]));
                if ((b == m[i]) == (b != m[i])) same = false;
            }
            if (bool(b) != b.any() || !same) return Val("test, [], any, bool, == and != disagree");
            return Val::t(l, (int)b.count(), (int)b.size(), int(b.any()), int(b.all()), int(b.none()), eq);
        }
        static B list(const Val& v)   // lists of up to 4 are made by the constructor
        {
            switch (v.size())
            {
            case 0: return B{};
            case 1: return B{ en(v.n(0)) };
            case 2: return B{ en(v.n(0)), en(v.n(1)) };
            case 3: return B{ en(v.n(0)), en(v.n(1)), en(v.n(2)) };
            default: return B{ en(v.n(0)), en(v.n(1)), en(v.n(2)), en(v.n(3)) };
            }
        }
        template <class X> static B value(const B& b, const std::string& f, const X& x) { if (f == "or") return b | x; if (f == "and") return b & x; return b ^ x; }
        template <class X> static B& assign(B& b, const std::string& f, const X& x) { if (f == "or") return b |= x; if (f == "and") return b &= x; return b ^= x; }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name(); int i = o.n(1); ++turn; B before = m[i];
            if (n == "value") { B b = value(m[i], o[2].s, en(o.n(3))); return m[i] == before ? show(b) : Val("the operand has changed"); }
            if (n == "valueall") { B b = value(m[i], o[2].s, m[o.n(3)]); return m[i] == before ? show(b) : Val("the operand has changed"); }
            if (n == "store")
            {
                std::vector<uint8_t> v; awl::io::VectorOutputStream out(v); awl::io::Write(out, m[i]);
                std::vector<uint8_t> v2; awl::io::VectorOutputStream out2(v2); std::bitset<COUNT> bits; for (int k = 0; k < N; ++k) bits[k] = m[i].test(en(k)); awl::io::Write(out2, bits);
                if (v != v2) return Val("bitset is stored differently");
                return Val(v);
            }
            if (n == "make") m[i] = list(o[2]);
            else if (n == "set") { if (&m[i].set(en(o.n(2)), o.n(3)) != &m[i]) return Val("set returns another object"); }
            else if (n == "refer") m[i][en(o.n(2))] = (bool)o.n(3);
            else if (n == "assign") { if (&assign(m[i], o[2].s, en(o.n(3))) != &m[i]) return Val("returns another object"); }
            else if (n == "assignall") { if (&assign(m[i], o[2].s, m[o.n(3)]) != &m[i]) return Val("returns another object"); }
            else if (n == "not") m[i] = ~m[o.n(2)];
            else if (n == "copy") m[i] = m[o.n(2)];
            else if (n == "restore")
            {
                std::vector<uint8_t> v; for (auto& x : o[2].a) v.push_back((uint8_t)x.i);
                awl::io::VectorInputStream in(v); std::vector<uint8_t> v2 = v; awl::io::VectorInputStream in2(v2);
                awl::io::Read(in, m[i]);
                std::bitset<COUNT> bits; awl::io::Read(in2, bits);
                for (int k = 0; k < N; ++k) if (bits[k] != m[i].test(en(k))) return Val("bitset is restored differently");
                if (!in.End() || !in2.End()) return Val("not everything was read");
            }
            return show(m[i]);
        }
        Val random_op(vk::Rng& r) override
        {
            static const char* const F[] = { "or", "and", "xor" };
            int i = 1 + vk::rnd(r, R), j = 1 + vk::rnd(r, R), b = vk::rnd(r, 2); const char* f = F[vk::rnd(r, 3)];
            int e = vk::rnd(r, 3) ? vk::rnd(r, N) : std::max(0, N - 1 - vk::rnd(r, 3));
            switch (vk::rnd(r, 12))
            {
            case 0: { Val l; for (int k = vk::rnd(r, 5); k > 0; --k) l.push(vk::rnd(r, 2) ? vk::rnd(r, N) : N - 1); return Val::t("make", i, l); }
            case 1: case 2: return Val::t("set", i, e, b);
            case 3: return Val::t("refer", i, e, b);
            case 4: case 5: return Val::t(b ? "assign" : "value", i, f, e);
            case 6: case 7: return Val::t(b ? "assignall" : "valueall", i, f, j);
            case 8: return Val::t("not", i, j);
            case 9: return Val::t("copy", i, j);
            case 10: return Val::t("store", i);
            default: { Val v; for (int k = 0; k < (N + 7) / 8; ++k) v.push(vk::rnd(r, 256)); return Val::t("restore", i, v); }
            }
        }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d", &Sut::N, &Sut::R);
    return vk::main<Sut>(argc, argv);
}
