// The file system calls of the code under test, observed and made to fail (linked with -Wl,--wrap).
// The files are real files of a scratch directory; what would be on the disk after a crash is
// computed from the recorded calls: everything before the last fsync of a file, a prefix of the
// calls after it, the last of them possibly torn.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>

namespace disk
{
    struct Op { char kind; size_t off; std::string data; };     // w(rite) or t(runcate to off)
    struct File
    {
        std::string durable;
        std::vector<Op> pending;
        static void apply(std::string& s, const Op& o, size_t part)
        {
            if (o.kind == 't') s.resize(o.off, '\0');
            else
            {
                if (s.size() < o.off + part) s.resize(o.off + part, '\0');
                s.replace(o.off, part, o.data, 0, part);
            }
        }
        std::string image(size_t applied, size_t torn) const
        {
            std::string s = durable;
            for (size_t i = 0; i < applied; ++i) apply(s, pending[i], pending[i].data.size());
            if (torn) apply(s, pending[applied], torn);
            return s;
        }
        std::string cached() const { return image(pending.size(), 0); }
    };
    inline std::map<std::string, File> files;       // by path, only those below `root`
    inline std::map<int, std::string> fds;
    inline std::string root;
    inline bool active = false;
    inline bool images = true;         // whether the contents are recorded
    inline int calls = 0, failures = 0;
    inline int fail_at = 0;            // 1-based index of the call that fails, 0: none
    inline bool fail_on = false;       // all the following fail too
    inline int fail_kind = 0;          // 0: error, 1: (writes) a part is written and the call returns less, 2: a part is written, then an error
    inline std::function<void(const char*)> on_call;   // before every call
    inline std::function<void()> on_change;            // after every change of a file

    inline bool fault(const char* what)
    {
        if (!active) return false;
        if (on_call) on_call(what);
        ++calls;
        bool f = fail_at && (calls == fail_at || (fail_on && calls > fail_at));
        if (f) ++failures;
        return f;
    }
    inline File* of(int fd) { auto i = fds.find(fd); return active && i != fds.end() ? &files[i->second] : nullptr; }
    inline bool ours(const char* p) { return active && !root.empty() && std::string(p).compare(0, root.size(), root) == 0; }
    inline void changed() { if (on_change) { active = false; on_change(); active = true; } }
}

extern "C"
{
    int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t); off_t __real_lseek(int, off_t, int); int __real_fsync(int); int __real_fdatasync(int);
    int __real_ftruncate(int, off_t); int __real_fstat(int, struct stat*); ssize_t __real_pwrite(int, const void*, size_t, off_t);
    ssize_t __real_pread(int, void*, size_t, off_t);

    int __wrap_open(const char* p, int flags, ...)
    {
        va_list a; va_start(a, flags); int mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a);
        if (!disk::ours(p)) return __real_open(p, flags, mode);
        if (disk::fault("open")) { errno = EACCES; return -1; }
        int fd = __real_open(p, flags, mode);
        if (fd >= 0)
        {
            disk::fds[fd] = p;
            if (flags & O_TRUNC) { disk::files[p].pending.push_back({ 't', 0, "" }); disk::changed(); }
        }
        return fd;
    }
    int __wrap_close(int fd) { disk::fds.erase(fd); return __real_close(fd); }
    ssize_t __wrap_read(int fd, void* b, size_t n)
    {
        if (!disk::of(fd)) return __real_read(fd, b, n);
        if (disk::fault("read")) { errno = EIO; return -1; }
        return __real_read(fd, b, n);
    }
    ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
    {
        if (!disk::of(fd)) return __real_pread(fd, b, n, o);
        if (disk::fault("read")) { errno = EIO; return -1; }
        return __real_pread(fd, b, n, o);
    }
    static ssize_t vk_write(int fd, const void* b, size_t n, off_t off, bool seek)
    {
        bool f = disk::fault("write");
        if (f && (disk::fail_kind == 0 || n < 2)) { errno = ENOSPC; return -1; }
        size_t m = f ? n / 2 : n;
        ssize_t r = seek ? __real_pwrite(fd, b, m, off) : __real_write(fd, b, m);
        if (r > 0 && disk::images)
        {
            disk::of(fd)->pending.push_back({ 'w', (size_t)off, std::string((const char*)b, r) });
            disk::changed();
        }
        if (f && disk::fail_kind == 2) { errno = EIO; return -1; }
        return r;
    }
    ssize_t __wrap_write(int fd, const void* b, size_t n) { return disk::of(fd) ? vk_write(fd, b, n, __real_lseek(fd, 0, SEEK_CUR), false) : __real_write(fd, b, n); }
    ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return disk::of(fd) ? vk_write(fd, b, n, o, true) : __real_pwrite(fd, b, n, o); }
    off_t __wrap_lseek(int fd, off_t o, int w)
    {
        if (disk::of(fd) && disk::fault("lseek")) { errno = EIO; return -1; }
        return __real_lseek(fd, o, w);
    }
    static int vk_sync(int fd, int (*real)(int))
    {
        disk::File* f = disk::of(fd);
        if (!f) return real(fd);
        if (disk::fault("fsync")) { errno = EIO; return -1; }
        if (!disk::images) return 0;
        f->durable = f->cached(); f->pending.clear();
        disk::changed();
        return 0;
    }
    int __wrap_fsync(int fd) { return vk_sync(fd, __real_fsync); }
    int __wrap_fdatasync(int fd) { return vk_sync(fd, __real_fdatasync); }
    int __wrap_ftruncate(int fd, off_t n)
    {
        disk::File* f = disk::of(fd);
        if (!f) return __real_ftruncate(fd, n);
        if (disk::fault("ftruncate")) { errno = EIO; return -1; }
        int r = __real_ftruncate(fd, n);
        if (!r && disk::images && f->cached().size() != (size_t)n) { f->pending.push_back({ 't', (size_t)n, "" }); disk::changed(); }
        return r;
    }
    int __wrap_fstat(int fd, struct stat* s)
    {
        if (disk::of(fd) && disk::fault("fstat")) { errno = EIO; return -1; }
        return __real_fstat(fd, s);
    }
}
