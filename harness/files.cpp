// C50: file streams and streams in memory against spec/Files.tla.
#include "vk.h"
#include "disk.h"
#include "Awl/Io/NativeStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/MeasureStream.h"
using vk::Val;
using namespace awl::io;
namespace
{
    int H, L;
    long Base = 0; // the file begins with a hole of so many bytes: positions beyond 4 GiB
    const std::string& path() { static std::string s; s = disk::root + "/f"; return s; }
    Val show(const std::string& s) { Val v; for (unsigned char c : s) v.push((int)c); return v; }
    std::vector<uint8_t> data(const Val& v) { std::vector<uint8_t> r; for (auto& x : v.a) r.push_back((uint8_t)x.i); return r; }
    struct Failure { bool on; Failure(int n, int kind) : on(n) { disk::fail_at = n ? disk::calls + n : 0; disk::fail_kind = kind; disk::failures = 0; } ~Failure() { disk::fail_at = 0; } };
    struct Sut : vk::Sut
    {
        std::vector<UniqueStream> at;
        Sut() : at(H) { disk::active = false; ::unlink(path().c_str()); disk::files.clear(); disk::active = true; }
        ~Sut() override { at.clear(); if (!disk::fds.empty()) { printf("MISMATCH a descriptor was not closed\n"); vk::dump_last(); _exit(3); } disk::active = false; ::unlink(path().c_str()); }
        template <class S> Val on(S& s, const Val& o)
        {
            const std::string& op = o.name();
            if (op == "read")
            {
                std::vector<uint8_t> b(o.n(2) + 2, 0xEE); size_t n = s.Read(b.data() + 1, o.n(2));
                if (b.front() != 0xEE || b.back() != 0xEE || n > (size_t)o.n(2)) return Val("read outside the buffer");
                return show(std::string((char*)b.data() + 1, n));
            }
            if (op == "write" || op == "short") { auto d = data(o[2]); s.Write(d.data(), d.size()); return 0; }
            if (op == "seek") { s.Seek(Base + o.n(2)); return 0; }
            if (op == "seekend") { s.Seek(o.n(2), false); return 0; }
            if (op == "move") { if (Base && (long)s.GetPosition() - Base + o.n(2) < 0) s.Move(o.n(2) - Base); else s.Move(o.n(2)); return 0; }
            if (op == "length") return (long)s.GetLength() - Base;
            if (op == "position") return (long)s.GetPosition() - Base;
            if (op == "end") return (int)s.End();
            if (op == "flush") { s.Flush(); return 0; }
            s.Truncate(); return 0;
        }
        Val run(const Val& o)
        {
            const std::string& op = o.name();
            if (op == "bytes")
            {
                std::string s; int fd = __real_open(path().c_str(), O_RDONLY); if (fd < 0) return Val::t(0, Val());
                char b[4096]; ssize_t n; if (Base) __real_lseek(fd, Base, SEEK_SET); while ((n = __real_read(fd, b, sizeof b)) > 0) s.append(b, n);
                __real_close(fd); return Val::t(1, show(s));
            }
            if (op == "memory")
            {
                auto d = data(o[1]); VectorInputStream v(d); std::istringstream is(std::string(d.begin(), d.end())); StdInputStream t(is);
                Val a, b; 
                if (v.End() != d.empty() || t.End() != d.empty()) return Val("the beginning");
                for (auto& x : o[2].a) for (auto* in : { (SequentialInputStream*)&v, (SequentialInputStream*)&t })
                {
                    std::vector<uint8_t> buf(x.i + 1, 0xEE); size_t n = in->Read(buf.data(), x.i);
                    if (buf.back() != 0xEE) return Val("read outside the buffer");
                    (in == &v ? a : b).push(Val::t(show(std::string((char*)buf.data(), n)), (int)in->End()));
                }
                if (a.str() != b.str()) return Val("the streams differ");
                return a;
            }
            if (op == "sink")
            {
                struct Limited : std::streambuf
                {
                    std::string s; size_t n; explicit Limited(size_t k) : n(k) {}
                    std::streamsize xsputn(const char* p, std::streamsize k) override { size_t m = std::min<size_t>(k, n - s.size()); s.append(p, m); return m; }
                    int overflow(int c) override { if (s.size() == n) return EOF; s += (char)c; return c; }
                } lim(o.n(2));
                std::ostream os(&lim); StdOutputStream t(os); std::vector<uint8_t> v; VectorOutputStream w(v); MeasureStream m;
                std::string all; bool thrown = false;
                for (auto& x : o[1].a)
                {
                    auto d = data(x); w.Write(d.data(), d.size()); m.Write(d.data(), d.size()); all.append(d.begin(), d.end());
                    try { t.Write(d.data(), d.size()); } catch (const WriteFailException&) { thrown = true; }
                }
                if (std::string(v.begin(), v.end()) != all || m.GetLength() != all.size()) return Val("vector or measure");
                if (thrown) return Val::t("thrown");
                return Val::t("ok", show(lim.s), m.GetLength());
            }
            try
            {
                UniqueStream& s = at.at(o.n(1) - 1);
                if (op == "create") { UniqueStream t(CreateUniqueFile(path())); int e = OpenedExisting(); if (Base) { struct stat sb; if (::stat(path().c_str(), &sb) == 0 && sb.st_size == 0) ::truncate(path().c_str(), Base); t.Seek(Base); } s = std::move(t); return Val::t("ok", e); }
                if (op == "open") { UniqueStream t(OpenUniqueFile(path())); if (Base) { t.Move(Base + 5); t.Move(-5); } s = std::move(t); return Val::t("ok", 0); }
                if (op == "close") { s = UniqueStream(); return Val::t("ok", 0); }
                if (op == "assign") { s = std::move(at.at(o.n(2) - 1)); return Val::t("ok", 0); }
                if (op == "pass") { UniqueStream t(std::move(s)); UniqueStream u; u = std::move(t); s = std::move(u); return Val::t("ok", 0); }
                if (op == "swap") { std::swap(s, at.at(o.n(2) - 1)); return Val::t("ok", 0); }
                if (op == "read" && o.n(3))
                {
                    // through another object that does not own the descriptor
                    Val r; { PosixStream<NonOwningHandle> b(NonOwningHandle(descriptor(s))); r = on(b, o); } return Val::t("ok", r);
                }
                return Val::t("ok", on(s, o));
            }
            catch (const IoException&) { return Val::t("thrown"); }
        }
        static HANDLE descriptor(UniqueStream& s)
        {
            // the only thing a stream has is its handle
            struct Probe : InputStream { }; (void)sizeof(Probe);
            for (auto& [fd, p] : disk::fds)
            {
                // the position of this descriptor moves with the stream
                off_t a = __real_lseek(fd, 0, SEEK_CUR);
                try { size_t q = s.GetPosition(); __real_lseek(fd, a + 1000, SEEK_SET); size_t r = s.GetPosition(); __real_lseek(fd, a, SEEK_SET); if (r == q + 1000) return fd; }
                catch (const IoException&) { return NullHandleValue; }
            }
            return NullHandleValue;
        }
        Val apply(const Val& o) override
        {
            Val r;
            if (o.name() == "fault") { Failure f(o.n(1), 0); r = run(o[2]); if (!disk::failures) r = Val("the system call was not made"); }
            else if (o.name() == "short") { Failure f(1, 1); r = run(o); }
            else r = run(o);
            return Val::t(r, disk::fds.size());
        }
        Val random_op(vk::Rng& r) override
        {
            int h = 1 + vk::rnd(r, H);
            auto bytes = [&](int most) { Val v; for (int n = vk::rnd(r, most); n > 0; --n) v.push(vk::rnd(r, 256)); return v; };
            static const char* plain[] = { "length", "position", "end", "flush", "truncate", "pass" };
            switch (vk::rnd(r, 20))
            {
            case 0: return Val::t("create", h);
            case 1: return vk::rnd(r, 2) ? Val::t("open", h) : Val::t("close", h);
            case 2: return Val::t(vk::rnd(r, 2) ? "assign" : "swap", h, 1 + vk::rnd(r, H));
            case 3: case 4: case 5: return Val::t(plain[vk::rnd(r, 6)], h);
            case 6: return Val::t("seekend", h, vk::rnd(r, 3));
            case 7: case 8: return Val::t("seek", h, vk::rnd(r, L));
            case 9: return Val::t("move", h, vk::rnd(r, 12) - 6);
            case 10: case 11: case 12: case 13: return Val::t("read", h, vk::rnd(r, 40), vk::rnd(r, 2));
            case 14: case 15: case 16: { Val v = bytes(20); return Val::t("write", h, v); }
            case 17: { Val v = bytes(20); return Val::t("short", h, v); }
            case 18: return Val::t("bytes");
            }
            Val l; for (int n = vk::rnd(r, 5); n > 0; --n) l.push(vk::rnd(r, 9));
            if (vk::rnd(r, 2)) return Val::t("memory", bytes(20), l);
            Val s; for (int n = vk::rnd(r, 5); n > 0; --n) s.push(bytes(6));
            return Val::t("sink", s, vk::rnd(r, 20));
        }
    };
}
int main(int argc, char** argv)
{
    sscanf(getenv("VK_PARAMS") ? getenv("VK_PARAMS") : "2,2", "%d,%d", &H, &L);
    Base = getenv("VK_BASE") ? atol(getenv("VK_BASE")) : 0;
    char dir[] = "/tmp/vk_files_XXXXXX"; if (!mkdtemp(dir)) return 2;
    disk::root = dir; disk::images = false;
    int rc = vk::main<Sut>(argc, argv);
    disk::active = false; ::unlink(path().c_str()); ::rmdir(dir);
    return rc;
}
