// C05: HashInputStream / HashOutputStream / buffered streams against spec/HashStream.tla
#include "vk.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Io/StdStream.h"
using vk::Val;

namespace
{
    using namespace awl::io;
    uint8_t at(size_t i) { return uint8_t((i * 2654435761u >> 13) ^ i); }
    struct Sut : vk::Sut
    {
        // Stack 1: the hash stream over a buffering stream with blocks of 7 bytes (with H = 8)
        static inline int B = 12, H = 8, W = 9, N = 5, All = 1, Stack = 0;
        std::vector<uint8_t> v;
        std::unique_ptr<VectorOutputStream> vo; std::unique_ptr<VectorInputStream> vi;
        std::unique_ptr<SequentialOutputStream> bo, o; std::unique_ptr<SequentialInputStream> bi, i;
        size_t w = 0, r = 0; int phase = 0;
        Sut()
        {
            vo = std::make_unique<VectorOutputStream>(v);
            SequentialOutputStream* u = vo.get();
            if (Stack) { bo = std::make_unique<BufferedOutputStream>(*u, 7); u = bo.get(); }
            if (H) o = std::make_unique<HashOutputStream<awl::crypto::Crc64>>(*u, B); else o = std::make_unique<BufferedOutputStream>(*u, B);
        }
        Val apply(const Val& op) override
        {
            const std::string& n = op.name();
            if (n == "write")
            {
                std::vector<uint8_t> x(op.n(1)); x.reserve(1);
                for (auto& b : x) b = at(w++);
                o->Write(x.data(), x.size());
                for (size_t k = 0; k < x.size(); ++k) if (x[k] != at(w - x.size() + k)) return Val::t("argument changed");
                return Val();
            }
            if (n == "close")
            {
                if (op.n(1)) { if (H) static_cast<HashOutputStream<awl::crypto::Crc64>&>(*o).Flush(); else static_cast<BufferedOutputStream&>(*o).Flush(); }
                o.reset(); bo.reset();
                phase = 1;
                return Val::t(v.size());
            }
            if (n == "change") { static const uint8_t x[] = { 1, 0x80, 0xff, 0x10 }; v.at(op.n(1)) ^= x[op.n(1) % 4]; phase = 2; return Val(); }
            if (n == "truncate") { v.resize(op.n(1)); phase = 2; return Val(); }
            if (n == "open")
            {
                phase = 3;
                vi = std::make_unique<VectorInputStream>(v);
                SequentialInputStream* u = vi.get();
                if (Stack) { bi = std::make_unique<BufferedInputStream>(*u, 7); u = bi.get(); }
                if (H) i = std::make_unique<HashInputStream<awl::crypto::Crc64>>(*u, B); else i = std::make_unique<BufferedInputStream>(*u, B);
                return Val();
            }
            if (n == "end")
            {
                try { return Val::t(i->End()); } catch (const CorruptionException&) { return Val::t("corrupt"); }
            }
            if (n == "read")
            {
                std::vector<uint8_t> x(op.n(1)); x.reserve(1);
                size_t k;
                try { k = i->Read(x.data(), x.size()); } catch (const CorruptionException&) { return Val::t("corrupt"); }
                if (k > x.size()) return Val::t("too many");
                for (size_t j = 0; j < k; ++j) if (x[j] != at(r + j)) return Val::t("byte", r + j, "is wrong");
                r += k;
                return Val::t(k);
            }
            abort();
        }
        Val random_op(vk::Rng& g) override
        {
            using vk::rnd;
            auto size = [&]
            {
                int c = rnd(g, 4), d = rnd(g, 3) - 1, p = B - H;
                int n = c == 0 ? rnd(g, N + 1) : c == 1 ? rnd(g, 9) : (1 + rnd(g, 3)) * (c == 2 ? p : B) + d;
                return std::max(0, std::min(n, N));
            };
            if (phase == 0)
            {
                if (rnd(g, 6) == 0) return Val::t("close", rnd(g, 2));
                int n = size();
                return (int)w + n > W ? Val::t("close", 0) : Val::t("write", n);
            }
            if (phase < 3)
            {
                int L = (int)v.size();
                if (phase == 2 || !H || !L || rnd(g, 4) == 0) return Val::t("open");
                int p = rnd(g, 3) == 0 ? rnd(g, L / B + 1) * B + rnd(g, H + 3) - H - 1 : rnd(g, L);
                p = std::max(0, std::min(p, L - 1));
                return Val::t(rnd(g, 2) ? "change" : "truncate", p);
            }
            return rnd(g, 5) == 0 ? Val::t("end") : Val::t("read", size());
        }
    };
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d,%d", &Sut::B, &Sut::H, &Sut::W, &Sut::N, &Sut::All);
    if (const char* p = getenv("VK_STACK")) Sut::Stack = atoi(p);
    return vk::main<Sut>(argc, argv);
}
