// C03: loads of damaged, foreign and older files, validated by spec/LoadTrace.tla
//   load enumerate OUT seed thorough       VK_PARAMS: type
//   load append                            the known finding: data behind a full last block
#include "vk.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/ReadWrite.h"
#include <optional>
#include <atomic>
using vk::Val;

namespace
{
    using namespace awl::io;
    struct Inner { int x = 0; std::string s; AWL_REFLECT(x, s) bool operator==(const Inner&) const = default; };
    // 0: assignable
    struct A
    {
        int id = 0; std::vector<uint8_t> payload; std::string name; std::optional<int> o; std::set<int> st; std::vector<Inner> in;
        AWL_REFLECT(id, payload, name, o, st, in)
    };
    // 1: not assignable, so that the object itself is read and restored after a failure
    struct N
    {
        std::atomic<int> id = 0; std::vector<uint8_t> payload; std::string name; std::optional<int> o; std::set<int> st; std::vector<Inner> in;
        AWL_REFLECT(id, payload, name, o, st, in)
    };
    const char* Fmt = "fmt"; const size_t Ver = 5;
    template <class T> void fill(T& d, int v)
    {
        static const int sizes[] = { 0, 3, 40, 90 };
        d.id = v; d.payload.clear(); d.st.clear(); d.in.clear(); d.o.reset();
        for (int i = 0; i < sizes[v % 4]; ++i) d.payload.push_back(uint8_t(v * 16 + i % 7));
        d.name = std::string(v % 3, 'a' + v);
        if (v % 2) d.o = v;
        for (int i = 0; i < v % 4; ++i) { d.st.insert(v * 10 + i); d.in.push_back({ v + i, std::string(i, 'x') }); }
    }
    template <class T> bool same(const T& a, const T& b)
    {
        return a.id == b.id && a.payload == b.payload && a.name == b.name && a.o == b.o && a.st == b.st && a.in == b.in;
    }
    template <class T> int which(const T& d)
    {
        for (int v = 0; v < 7; ++v) { T x; fill(x, v); if (same(d, x)) return v; }
        return -1;
    }
    template <class T, class I = SequentialInputStream, class O = SequentialOutputStream> struct H : HeaderedSerializable<T, I, O>
    {
        using HeaderedSerializable<T, I, O>::HeaderedSerializable;
        size_t old = 0; bool quiet = false;
        void ReadOldVersion(size_t version) override { old = version; if (!quiet) HeaderedSerializable<T, I, O>::ReadOldVersion(version); }
    };
    struct Log : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };

    using Bytes = std::vector<uint8_t>;
    struct FileD { std::string fmt; int ver; int v; Val dmg; Bytes b; Val val() const { return b.empty() && fmt.empty() ? Val() : Val::t(fmt, ver, v, dmg); } };
    template <class T> FileD written(const std::string& fmt, int ver, int v, size_t block)
    {
        T d; fill(d, v);
        Bytes b; VectorOutputStream out(b);
        HeaderedSerializable<T> h(Header{ fmt, (size_t)ver }, d, block);
        h.Write(out);
        return { fmt, ver, v, Val::t("none"), b };
    }
    FileD change(FileD f, size_t p, int mask) { f.b.at(p) ^= (uint8_t)mask; f.dmg = Val::t("change", p, mask); return f; }
    FileD truncated(FileD f, size_t n) { f.b.resize(n); f.dmg = Val::t("truncate", n); return f; }
    FileD garbage(vk::Rng& g, size_t n)
    {
        FileD f{ "?", 0, 0, Val::t("garbage"), Bytes(n) };
        int k = vk::rnd(g, 4);
        for (auto& x : f.b) x = k == 0 ? 0 : k == 1 ? 0xff : (uint8_t)g();
        return f;
    }

    std::ofstream out; long lines = 0;
    void emit(const Val& o, const Val& r) { vk::note(o.str()); out << "{\"o\":" << o.str() << ",\"r\":" << r.str() << "}\n"; ++lines; }

    template <class T> struct Reader
    {
        T obj; size_t block;
        Reader(int v, size_t block) : block(block) { fill(obj, v); emit(Val::t("reset", v), Val()); }
        void read(const FileD& f, bool quiet)
        {
            Val o = Val::t("read", f.val(), int(quiet)); vk::note(o.str());
            VectorInputStream in(f.b);
            H<T> h(Header{ Fmt, Ver }, obj, block); h.quiet = quiet;
            std::string r = "ok";
            try { h.Read(in); } catch (const IoException&) { r = "rejected"; }
            emit(o, Val::t(r, which(obj), h.old));
        }
        void load(const FileD& m, const FileD& b)
        {
            Val o = Val::t("load", m.val(), b.val()); vk::note(o.str());
            for (auto* f : { &m, &b })
            {
                std::ofstream s(f == &m ? "l.dat" : "l.bak", std::ios::binary | std::ios::trunc);
                s.write((const char*)f->b.data(), f->b.size());
            }
            Log log; awl::io::AtomicStorage s(log);
            H<T> h(Header{ Fmt, Ver }, obj, block);
            std::string r = "rejected";
            s.Open("l.dat", "l.bak");
            if (s.Load(h)) r = "ok";
            emit(o, Val::t(r, which(obj)));
        }
    };
    // does appending n bytes go into the last block?
    bool open_last(size_t len, size_t block) { return len % block != 0; }

    template <class T> int enumerate(unsigned long seed, bool thorough)
    {
        vk::Rng g(seed);
        using vk::rnd;
        for (int v : { 1, 2, 3, 4 })
        {
            size_t L = written<T>(Fmt, Ver, v, 65536).b.size();
            std::set<size_t> full;
            for (int i = 0; i < (thorough ? 20 : 2); ++i) full.insert(9 + rnd(g, int(L)));
            for (size_t B : { size_t(17), L - 8, L - 1, L, size_t(65536) }) full.insert(B);
            for (size_t B = 9; B < L + 12 || B == 65536; B = B + 1 == L + 12 ? 65536 : B + 1)
            {
                bool all = full.count(B) && (thorough || v == 1 || B % 4 == 0);
                if (!all && !thorough && (B + v) % 5 && B > 30) continue;
                FileD f = written<T>(Fmt, Ver, v, B);
                Reader<T> r(v == 2 ? 3 : 2, B);
                auto put = [&](const FileD& x) { r.read(x, rnd(g, 2)); };
                put(f);
                for (size_t p = 0; p < f.b.size(); ++p)
                {
                    bool edge = p % B < 2 || p % B + 9 >= B;
                    if (all || rnd(g, 25) == 0) put(change(f, p, 1 << rnd(g, 8)));
                    if (all || (edge && rnd(g, 6) == 0)) put(truncated(f, p));
                    if (p == f.b.size() / 2) { put(f); r.read(written<T>(Fmt, Ver, v % 4 + 1, B), 0); }
                }
                // multi-byte damage
                for (int i = 0; i < 4; ++i)
                {
                    FileD x = f; size_t p = rnd(g, (int)f.b.size()), n = 1 + rnd(g, 40);
                    bool differs = false;
                    for (size_t k = p; k < std::min(p + n, f.b.size()); ++k) { uint8_t c = i % 2 ? 0 : (uint8_t)g(); differs |= c != x.b[k]; x.b[k] = c; }
                    x.dmg = Val::t("change", p, 0);
                    if (differs) put(x);
                }
                for (int n : { 1, 8, 30 }) if (open_last(f.b.size(), B)) { FileD x = f; x.b.insert(x.b.end(), n, uint8_t(rnd(g, 3) * 127)); x.dmg = Val::t("append", n); if (B < 60000) put(x); }
                // foreign and other versions
                for (auto& [fm, ve] : std::vector<std::pair<std::string, int>>{ { "fm", 5 }, { "fmtt", 5 }, { "", 5 }, { "Fmt", 5 }, { std::string("fmt\0", 4), 5 }, { std::string(64, 'f'), 5 },
                        { "fmt", 6 }, { "fmt", 500 }, { "fmt", 4 }, { "fmt", 0 }, { "fmt", 1 }, { "abc", 4 }, { "abc", 6 } })
                {
                    if (!all && rnd(g, 4)) continue;
                    FileD x = written<T>(fm, ve, v, B);
                    if (fm.size() == 4 && fm[3] == 0) x.fmt = "fmt0";
                    r.read(x, 0); r.read(x, 1);
                    if (ve >= (int)Ver) { r.read(change(x, rnd(g, (int)x.b.size()), 4), 1); r.read(truncated(x, rnd(g, (int)x.b.size())), 1); }
                }
                for (int i = 0; i < 3; ++i) put(garbage(g, 1 + rnd(g, 200)));
            }
        }
        // master and backup through the storage
        for (size_t B : { size_t(24), size_t(50), size_t(65536) })
        {
            Reader<T> r(4, B);
            FileD g1 = written<T>(Fmt, Ver, 1, B), g3 = written<T>(Fmt, Ver, 3, B);
            auto pick = [&](int k, const FileD& f) -> FileD
            {
                size_t n = f.b.size();
                switch (k)
                {
                case 0: return f;
                case 1: return change(f, rnd(g, (int)n), 1 << rnd(g, 8));
                case 2: return truncated(f, rnd(g, (int)n));
                case 3: return truncated(f, n / B * B < n ? n / B * B : n - B);    // at the end of a block
                case 4: return written<T>(Fmt, Ver + 1, f.v, B);
                case 5: return written<T>("other", Ver, f.v, B);
                case 6: return written<T>(Fmt, Ver - 1, f.v, B);
                case 7: return FileD{ "", 0, 0, Val(), {} };
                default: return garbage(g, 1 + rnd(g, 200));
                }
            };
            for (int rep = 0; rep < (thorough ? 20 : 3); ++rep)
                for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b)
                {
                    if (B == 65536 && (a == 3 || b == 3)) continue;
                    r.load(pick(a, g1), pick(b, g3));
                    if (rnd(g, 3) == 0) r.load(written<T>(Fmt, Ver, rnd(g, 5), B), FileD{ "", 0, 0, Val(), {} });
                }
        }
        unlink("l.dat"); unlink("l.bak");
        out.flush();
        printf("OK lines=%ld\n", lines);
        return 0;
    }
    int append()
    {
        out.open("/dev/null");
        A d; fill(d, 3); int changed = 0;
        for (size_t B = 9; B < 200; ++B)
        {
            FileD f = written<A>(Fmt, Ver, 1, B);
            if (open_last(f.b.size(), B)) continue;
            f.b.push_back(1);
            fill(d, 3);
            std::ofstream("l.bak", std::ios::trunc).close();
            { std::ofstream s("l.dat", std::ios::binary | std::ios::trunc); s.write((const char*)f.b.data(), f.b.size()); }
            Log log; awl::io::AtomicStorage s(log); H<A> h(Header{ Fmt, Ver }, d, B);
            s.Open("l.dat", "l.bak");
            if (s.Load(h)) { printf("accepted\n"); return 3; }
            if (which(d) != 3) ++changed;
        }
        unlink("l.dat"); unlink("l.bak");
        printf("changed=%d\n", changed);
        return 0;
    }
}

int main(int argc, char** argv)
{
    vk::install();
    int type = 0;
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d", &type);
    std::string mode = argc > 1 ? argv[1] : "";
    char dir[] = "./loadXXXXXX";
    std::string f = argc > 2 ? argv[2] : "";
    if (mode == "enumerate") out.open(f);
    if (!mkdtemp(dir) || chdir(dir)) return 2;
    int rc = 2;
    if (mode == "enumerate" && argc > 4) rc = type ? enumerate<N>(strtoul(argv[3], 0, 10), atoi(argv[4])) : enumerate<A>(strtoul(argv[3], 0, 10), atoi(argv[4]));
    if (mode == "append") rc = append();
    if (chdir("..") == 0) rmdir(dir);
    return rc;
}
