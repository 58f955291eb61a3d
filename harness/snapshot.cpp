// C04: a save with a mutex while other threads change the value under the mutex. The other threads
// are state machines whose steps are run at the scheduling points of the saving thread: mutex
// operations, every access to a field of the value and every file system call. The recorded events are
// validated by spec/SnapshotTrace.tla.
//   snapshot explore OUT seed random thorough      VK_PARAMS: mode
#include "vk.h"
#include "disk.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/ReadWrite.h"
using vk::Val;

namespace
{
    using namespace awl::io;
    const int NF = 4;
    int Mode = 0;
    void point(const char*);

    // An integer whose every serialization is a scheduling point.
    struct Cell
    {
        int v = 0;
        auto as_tuple() { return std::tie(v); }
        auto as_const_tuple() const { point("field"); return std::tie(v); }
        auto as_tuple() const { point("field"); return std::tie(v); }
        static const awl::helpers::MemberList& get_member_names() { static const char va[] = "v"; static const awl::helpers::MemberList ml(va); return ml; }
    };
    struct Data
    {
        Cell a; std::vector<Cell> b; Cell c; std::string s;
        AWL_REFLECT(a, b, c, s)
        int get(int f) const { return f == 1 ? a.v : f == 2 ? b.at(0).v : f == 3 ? c.v : (int)s.size(); }
        // the size of the serialized value depends on the last field
        void set(int f, int x) { if (f == 1) a.v = x; else if (f == 2) b.at(0).v = x; else if (f == 3) c.v = x; else s = std::string(x, 's'); }
        Data() : b(1) {}
    };
    struct Log : awl::Logger { int warnings = 0; void log(awl::LogLevel l, awl::LogString) override { if (l == awl::LogLevel::Warning || l == awl::LogLevel::Error) ++warnings; } };

    std::ofstream out; long lines = 0, schedules = 0;
    void emit(const Val& o) { vk::note(o.str()); out << "{\"o\":" << o.str() << ",\"r\":\"\"}\n"; ++lines; }

    int holder = -1, generation = 0;
    bool saving = false;
    Data* data = nullptr;
    // thread t: lock, set all the fields (in some order) to the same fresh number, unlock, and again
    struct Thread
    {
        int t, pc = 0, x = 0;
        bool step()
        {
            int k = pc % (NF + 2);
            if (k == 0)
            {
                if (holder != -1) return false;
                holder = t; x = ++generation; emit(Val::t("lock", t));
            }
            else if (k <= NF)
            {
                int f = t == 1 ? k : NF + 1 - k;
                data->set(f, x); emit(Val::t("set", t, f, x));
            }
            else { holder = -1; emit(Val::t("unlock", t)); }
            ++pc; return true;
        }
    };
    std::vector<Thread> others;

    // the schedule: at scheduling point number p, n steps of thread t
    struct Switch { int p, t, n; };
    std::vector<Switch> plan; int points = 0;
    vk::Rng* rng = nullptr; int left = 0;
    void run_others(int t, int n) { for (int i = 0; i < n && others[t].step(); ++i); }
    void point(const char*)
    {
        if (!saving) return;
        ++points;
        for (auto& s : plan) if (s.p == points) run_others(s.t, s.n);
        if (rng && left > 0 && vk::rnd(*rng, 3) == 0) { int n = 1 + vk::rnd(*rng, 6); left -= n; run_others(vk::rnd(*rng, 2), n); }
    }
    struct Mutex : awl::IMutex
    {
        void lock() override
        {
            point("lock");
            if (holder == 0) { printf("MISMATCH the saving thread locks the mutex twice\n"); vk::dump_last(); exit(3); }
            while (holder > 0) others[holder - 1].step();
            holder = 0; emit(Val::t("lock", 0));
        }
        void unlock() override { point("unlock"); if (holder != 0) { printf("MISMATCH unlock of a mutex that is not held\n"); vk::dump_last(); exit(3); } holder = -1; emit(Val::t("unlock", 0)); point("unlocked"); }
    };

    template <class S> void one(int fail_at)
    {
        ++schedules; vk::progress();
        for (auto n : { "/s.dat", "/s.bak" }) { int fd = __real_open((disk::root + n).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); __real_close(fd); }
        disk::files.clear(); disk::fds.clear(); disk::calls = disk::failures = 0; disk::fail_at = 0;
        holder = -1; generation = 0; points = 0; others = { { 1 }, { 2 } };
        out << "{\"o\":[\"reset\"],\"r\":\"\"}\n"; ++lines; vk::last_ops.clear();
        for (auto& s : plan) vk::note(Val::t("plan", s.p, s.t + 1, s.n).str());
        Data d; data = &d;
        Log log; Mutex m;
        std::unique_ptr<EuphoricallySerializable<Data>> e;
        if (Mode % 2) e = std::make_unique<HeaderedSerializable<Data>>(Header{ "f", 1 }, d, (size_t)48); else e = std::make_unique<EuphoricallySerializable<Data>>(d, (size_t)64);
        S s(log);
        disk::active = true;
        s.Open(disk::root + "/s.dat", disk::root + "/s.bak");
        disk::active = false;
        s.Load(*e);
        auto save = [&](bool fail)
        {
            disk::calls = disk::failures = 0; disk::fail_at = fail ? fail_at : 0;
            emit(Val::t("start"));
            bool ok = true; log.warnings = 0;
            saving = true; disk::active = true;
            try { s.Save(*e, &m); } catch (const IoException&) { ok = false; }
            disk::active = false;
            if (log.warnings) ok = false;
            point("end");
            saving = false;
            emit(Val::t("end", int(ok)));
            if (ok && disk::failures) { printf("MISMATCH a failed save was not reported\n"); vk::dump_last(); exit(3); }
            if (!ok && !disk::failures) { printf("MISMATCH a save failed\n"); vk::dump_last(); exit(3); }
            // the others finish
            for (auto& o : others) while (o.pc % (NF + 2)) if (!o.step()) others[holder - 1].step();
            disk::fail_at = 0;
            // another process loads (from copies of the files)
            Data r; EuphoricallySerializable<Data> re(r, (size_t)64); HeaderedSerializable<Data> rh(Header{ "f", 1 }, r, (size_t)48);
            for (auto n : { "/s.dat", "/s.bak" })
            {
                std::ifstream i(disk::root + n, std::ios::binary); std::string t((std::istreambuf_iterator<char>(i)), {});
                std::ofstream(disk::root + "/c" + (n + 1), std::ios::binary) << t;
            }
            awl::io::AtomicStorage rs(log); rs.Open(disk::root + "/cs.dat", disk::root + "/cs.bak");
            bool loaded = Mode % 2 ? rs.Load(rh) : rs.Load(re);
            Val v; if (loaded) for (int f = 1; f <= NF; ++f) v.push(r.get(f));
            emit(Val::t("loaded", v));
        };
        save(fail_at > 0);
        int p = points;
        points = 100000;
        save(false);
        points = p;
    }
    void one(int fail_at) { if (Mode < 2) one<awl::io::AtomicStorage>(fail_at); else one<awl::io::OptionalStorage>(fail_at); }

    int explore(const char* file, unsigned long seed, int random, bool thorough)
    {
        disk::on_call = [](const char*) { if (saving) emit(Val::t("call")); point("call"); };
        out.open(file);
        plan.clear(); one(0);
        const int total = points, calls = disk::calls;
        for (int p = 1; p <= total; ++p)
            for (int n = 1; n <= NF + 4; ++n)
            {
                plan = { { p, 0, n } }; one(0);
                // a second switch
                for (int p2 = p; p2 <= total; p2 += thorough ? 1 : 3 + (p2 + p + n + Mode) % 5)
                    for (int n2 : { 1, 2, NF + 1, NF + 2 }) for (int t = 0; t < 2; ++t)
                        if (thorough || (p + n + n2 + p2 + t) % 5 == 0) { plan = { { p, 0, n }, { p2, t, n2 } }; one(0); }
            }
        vk::Rng g(seed); rng = &g; plan.clear();
        for (int i = 0; i < random; ++i) { left = 25; one(vk::rnd(g, 3) == 0 ? 1 + vk::rnd(g, calls) : 0); }
        rng = nullptr;
        out.flush();
        printf("OK schedules=%ld lines=%ld points=%d\n", schedules, lines, total);
        return 0;
    }
}

int main(int argc, char** argv)
{
    vk::install();
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d", &Mode);
    if (argc < 6 || std::string(argv[1]) != "explore") return 2;
    char dir[] = "./snapXXXXXX", full[4096];
    if (!mkdtemp(dir) || !realpath(dir, full)) return 2;
    disk::root = full;
    int rc = explore(argv[2], strtoul(argv[3], 0, 10), atoi(argv[4]), atoi(argv[5]));
    for (auto n : { "/s.dat", "/s.bak", "/cs.dat", "/cs.bak" }) unlink((disk::root + n).c_str());
    rmdir(full);
    return rc;
}
