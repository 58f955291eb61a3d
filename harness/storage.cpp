// C01, C02: the real storage classes with every crash point and failure; the observations are
// validated by spec/StorageTrace.tla.
//   storage explore OUT levels faultstep thorough      VK_PARAMS: mode,blocksize
//   storage noload                                     the known finding: a save without a load after a crash
#include "vk.h"
#include "disk.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include <mutex>
#include <deque>

namespace
{
    int Mode = 0, Block = 40;
    struct Data
    {
        int id; std::vector<uint8_t> payload; std::string name;
        AWL_REFLECT(id, payload, name)
        bool operator==(const Data&) const = default;
    };
    Data make(int v)
    {
        // what follows can be shorter, of the same length or longer already at the second save
        static const int all[3][8] = { { 0, 60, 20, 60, 110, 24, 150, 3 }, { 0, 60, 60, 20, 110, 24, 150, 3 }, { 0, 20, 60, 3, 110, 24, 150, 3 } };
        auto& sizes = all[Mode == 1 ? 1 : Mode == 2 || Mode == 5 ? 2 : 0];
        Data d; d.id = v;
        for (int i = 0; i < sizes[v % 8]; ++i) d.payload.push_back(uint8_t(v * 16 + i % 7));
        d.name = std::string(v % 3, 'a' + v);
        return d;
    }
    const int Unset = 99;
    int which(const Data& d)
    {
        for (int v = 1; v < 20; ++v) if (d == make(v)) return v;
        return d == make(Unset) ? 0 : -2;
    }
    struct Log : awl::Logger
    {
        int warnings = 0;
        void log(awl::LogLevel l, awl::LogString) override { if (l == awl::LogLevel::Warning || l == awl::LogLevel::Error) ++warnings; }
    };
    struct Client { virtual ~Client() = default; Log log; virtual bool open() = 0; virtual bool load() = 0; virtual void save() = 0; virtual Data& data() = 0; virtual bool optional() { return false; } virtual bool empty() { return true; } bool has_empty = true; };

    const std::string& dat() { static std::string s; s = disk::root + "/f.dat"; return s; }
    const std::string& bak() { static std::string s; s = disk::root + "/f.bak"; return s; }

    using HI = awl::io::HashInputStream<awl::crypto::Crc64>; using HO = awl::io::HashOutputStream<awl::crypto::Crc64>;
    template <class S> struct Plain : Client
    {
        Data d; awl::io::PlainSerializable<Data, HI, HO> p{ d }; awl::io::HashingSerializable<> h{ p, (size_t)Block }; S s{ log };
        bool open() override { s.Open(dat(), bak()); return s.IsOpened(); }
        bool load() override { return s.Load(h); }
        void save() override { s.Save(h); }
        bool empty() override { return s.IsEmpty(); }
        Data& data() override { return d; }
    };
    template <class S, bool Mutex> struct Euph : Client
    {
        Data d; awl::io::EuphoricallySerializable<Data> e{ d, (size_t)Block }; S s{ log }; std::mutex m; awl::MutexWrapper<std::mutex> w{ m };
        bool open() override { s.Open(dat(), bak()); return s.IsOpened(); }
        bool load() override { return s.Load(e); }
        void save() override { s.Save(e, Mutex ? &w : nullptr); }
        bool empty() override { return s.IsEmpty(); }
        Data& data() override { return d; }
    };
    template <class S> struct Pers : Client
    {
        Pers() { has_empty = false; }
        awl::io::PersistentObject<Data, S> o{ log, awl::io::Header{ "fmt", 3 }, (size_t)Block };
        bool open() override { o.open(disk::root + "/f"); return o.is_open(); }
        bool load() override { return o.load(); }
        void save() override { o.save(); }
        Data& data() override { return o.value(); }
        bool optional() override { return std::is_same_v<S, awl::io::OptionalStorage>; }
    };
    struct OptEuph : Euph<awl::io::OptionalStorage, true> { bool optional() override { return true; } };
    std::unique_ptr<Client> client()
    {
        switch (Mode)
        {
        case 0: return std::make_unique<Plain<awl::io::AtomicStorage>>();
        case 1: return std::make_unique<Euph<awl::io::AtomicStorage, false>>();
        case 2: return std::make_unique<Euph<awl::io::AtomicStorage, true>>();
        case 3: return std::make_unique<Pers<awl::io::AtomicStorage>>();
        case 4: return std::make_unique<Pers<awl::io::OptionalStorage>>();
        default: return std::make_unique<OptEuph>();
        }
    }

    using vk::Val;
    struct Node { disk::File master, backup; std::set<int> cand; int level; bool dirty() const { return !master.pending.empty() || !backup.pending.empty(); } };    // pending operations: the process was killed, the system runs on
    std::vector<Node> nodes;
    std::map<std::tuple<std::string, std::set<int>>, int> index;
    long kills = 0;
    std::ofstream out;
    long lines = 0, images = 0, runs = 0;
    bool Thorough = false;

    std::set<std::string> emitted;
    void emit(const Val& o) { if (!emitted.insert(o.str()).second) return; vk::note(o.str()); out << "{\"o\":" << o.str() << ",\"r\":\"\"}\n"; ++lines; }

    void put(const std::string& path, const std::string& s)
    {
        int fd = __real_open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || __real_write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
        __real_close(fd);
    }

    std::set<int> after(std::set<int> c, const Val& calls)
    {
        for (auto& x : calls.a)
        {
            if (x.name() == "load") { if (x.n(1) != 0 && !x.n(2)) c = { x.n(1) }; }
            else if (x.name() == "save") { if (x[3].s == "ok") c = { x.n(1) }; else c.insert(x.n(1)); }
            else if (x.name() == "cutsave") c.insert(x.n(1));
        }
        return c;
    }
    std::vector<size_t> cuts(const disk::Op& o)
    {
        std::vector<size_t> r; size_t n = o.data.size();
        if (o.kind == 'w')
            for (size_t c = 1; c < n; ++c)
                if ((Thorough && (c < 12 || c % 5 == 0 || c + 10 > n)) || c == 1 || c == n / 2 || c + 1 == n) r.push_back(c);
        return r;
    }
    std::string key(const disk::File& m, const disk::File& b)
    {
        std::string k;
        for (auto* f : { &m, &b })
        {
            k += std::to_string(f->durable.size()) + ":" + f->durable;
            for (auto& o : f->pending) k += "|" + std::string(1, o.kind) + std::to_string(o.off) + ":" + std::to_string(o.data.size()) + ":" + o.data;
            k += "#";
        }
        return k;
    }
    int node(const disk::File& m, const disk::File& b, const std::set<int>& c, int level)
    {
        auto [i, fresh] = index.emplace(std::make_tuple(key(m, b), c), (int)nodes.size());
        if (fresh) nodes.push_back({ m, b, c, level });
        return i->second;
    }
    // all the contents that can be found after a crash now
    void crash(int n, const Val& calls, int level, bool grow)
    {
        auto c = after(nodes[n].cand, calls);
        Val tm, tb, imgs, cv;
        for (int x : c) cv.push(x);
        const disk::File& m = disk::files[dat()]; const disk::File& b = disk::files[bak()];
        auto variants = [](const disk::File& f, Val& t)
        {
            std::vector<std::tuple<int, int, std::string>> r;
            for (auto& o : f.pending) t.push((int)cuts(o).size());
            for (size_t a = 0; a <= f.pending.size(); ++a)
            {
                r.emplace_back(a, 0, f.image(a, 0));
                if (a < f.pending.size()) { auto k = cuts(f.pending[a]); for (size_t i = 0; i < k.size(); ++i) r.emplace_back(a, i + 1, f.image(a, k[i])); }
            }
            return r;
        };
        auto vm = variants(m, tm), vb = variants(b, tb);
        for (auto& [am, xm, sm] : vm) for (auto& [ab, xb, sb] : vb)
        {
            int i = node({ sm, {} }, { sb, {} }, c, grow ? level : 99);
            ++images;
            imgs.push(Val::t(am, xm, ab, xb, i + 1, cv));
        }
        emit(Val::t("crash", n + 1, calls, tm, tb, imgs));
        if (!nodes[n].dirty() && (!m.pending.empty() || !b.pending.empty()))
        {
            ++kills;
            emit(Val::t("kill", n + 1, calls, node(m, b, c, grow ? level : 99) + 1, cv));
        }
    }

    // One process: prog is a string of O, L and digits (save that value). Returns the number of file calls.
    int run(int n, const std::string& prog, int level, bool crashes, bool grow, int fail_at = 0, bool fail_on = false, int kind = 0)
    {
        ++runs;
        put(dat(), nodes[n].master.cached()); put(bak(), nodes[n].backup.cached());
        disk::files.clear(); disk::fds.clear();
        disk::files[dat()] = nodes[n].master; disk::files[bak()] = nodes[n].backup;
        disk::calls = disk::failures = 0; disk::fail_at = fail_at; disk::fail_on = fail_on; disk::fail_kind = kind;
        Val calls; std::string now; int cutv = 0;
        disk::on_change = nullptr;
        if (crashes) disk::on_change = [&] { if (fail_at && !disk::failures) return; Val cs = calls; cs.push(now == "save" ? Val::t("cutsave", cutv) : Val::t("cut" + now)); crash(n, cs, level, grow); };
        auto c = client();
        c->data() = make(Unset);
        int total = 0;
        for (size_t i = 0; i < prog.size();)
        {
            vk::progress();
            char p = prog[i]; int f0 = disk::failures;
            c->log.warnings = 0;
            bool retry = false;
            now = p == 'O' ? "open" : p == 'L' ? "load" : "save"; cutv = p - '0';
            vk::note(prog + " step " + std::to_string(i) + " node " + std::to_string(n + 1) + " fail_at " + std::to_string(fail_at) + " kind " + std::to_string(kind));
            if (p == 'O')
            {
                bool ok = false; disk::active = true;
                try { ok = c->open(); } catch (const awl::io::IoException&) {} 
                disk::active = false;
                int f = disk::failures > f0;
                if (ok && c->has_empty && c->empty() != (disk::files[dat()].cached().empty() && disk::files[bak()].cached().empty())) { calls.push(Val::t("open", f, "wrong IsEmpty()")); emit(Val::t("run", n + 1, calls)); c.reset(); return 0; }
                calls.push(Val::t("open", f, ok ? "ok" : "fail"));
                retry = !ok;
            }
            else if (p == 'L')
            {
                Data before = c->data(); int x = 0; disk::active = true;
                try { if (c->load()) x = -4; } catch (const awl::io::IoException&) { x = disk::failures > f0 ? 0 : -1; }
                disk::active = false;
                int f = disk::failures > f0;
                if (x == -4) { x = which(c->data()); if (x == 0) x = -4; }
                else if (x == 0 && !f && !(c->data() == before)) x = -3;
                calls.push(Val::t("load", x, f));
                retry = x == 0 && f;
            }
            else
            {
                c->data() = make(cutv);
                std::string r = "ok"; disk::active = true;
                try { c->save(); } catch (const awl::io::IoException&) { r = "fail"; if (c->optional()) r = "thrown"; } catch (...) { r = "other"; }
                disk::active = false;
                int f = disk::failures > f0;
                if (c->optional() && r == "ok" && c->log.warnings) r = "fail";
                if (!(c->data() == make(cutv))) r = "changed";
                calls.push(Val::t("save", cutv, f, r));
            }
            if (disk::failures > f0) { disk::fail_at = 0; disk::fail_on = false; }
            else if (retry) break;
            if (!retry) ++i;
        }
        emit(Val::t("run", n + 1, calls));
        if (crashes) crash(n, calls, level, grow);
        disk::on_change = nullptr;
        total = disk::calls;
        c.reset();
        return total;
    }

    int explore(const char* file, int levels, int faultstep)
    {
        out.open(file);
        out << "{\"o\":[\"reset\"],\"r\":\"[]\"}\n";
        node({}, {}, { 0 }, 0);
        emit(Val::t("node", 1));
        for (size_t n = 0; n < nodes.size(); ++n)
        {
            int lv = nodes[n].level;
            // failures while recovering: all the states with something in the backup
            if (faultstep && n % std::max(1, faultstep / 8) == 0 && !nodes[n].backup.cached().empty() && !nodes[n].master.cached().empty())
                for (int kind = 0; kind < 3; ++kind)
                    for (int on = 0; on < 2; ++on)
                        for (int k = 1; k < 60; ++k)
                        {
                            run(n, "OL", lv, true, false, k, on, kind);
                            if (!disk::failures) break;
                        }
            if (lv > 90) { run(n, "OL", lv, nodes[n].dirty(), false); continue; }
            run(n, "OL", lv, true, true);       // recovery, interrupted anywhere
            std::string v(1, '1' + lv), w(1, '2' + lv);
            if (lv < levels)
            {
                run(n, "OL" + v, lv + 1, true, true);
                if (n == 0) run(n, "OL" + v + w, lv + 2, true, lv + 2 <= levels);
            }
            // failures
            if (faultstep && n % faultstep == 0)
            {
                std::string p = "OL" + v + "L";
                if (n) run(n, p, lv + 2, true, false);
                else { run(n, "OL" + v + w + "L", lv + 2, true, false); run(n, "OL" + v + "OL" + w + "L", lv + 2, true, false); }
                for (int kind = 0; kind < 3; ++kind)
                    for (int on = 0; on < 2; ++on)
                        for (int k = 1; k < 200; ++k)
                        {
                            if (n) run(n, p, lv + 2, true, false, k, on, kind);
                            else run(n, "OL" + v + ((k + n) % 2 ? "OL" : "") + w + "L", lv + 2, true, false, k, on, kind);
                            if (!disk::failures) break;
                        }
            }
        }
        out.flush();
        printf("OK nodes=%zu images=%ld runs=%ld lines=%ld kills=%ld\n", nodes.size(), images, runs, lines, kills);
        return 0;
    }

    int noload()
    {
        out.open("/dev/null");
        node({}, {}, { 0 }, 0);
        run(0, "OL1", 1, true, true);
        std::set<std::string> done;
        int saved = (int)nodes.size() - 1;
        run(saved, "OL2", 1, true, true);
        size_t end = nodes.size(); int lost = 0;
        for (size_t n = saved; n < end; ++n)
        {
            if (nodes[n].cand != std::set<int>{ 1, 2 }) continue;
            size_t k = nodes.size();
            run(n, "O3", 1, true, true);
            for (size_t j = k; j < nodes.size(); ++j)
            {
                put(dat(), nodes[j].master.cached()); put(bak(), nodes[j].backup.cached());
                auto c = client(); c->data() = make(Unset);
                c->open(); if (!c->load()) ++lost;
            }
            if (lost) break;
        }
        printf("lost=%d\n", lost);
        return 0;
    }
}

int main(int argc, char** argv)
{
    vk::install();
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d", &Mode, &Block);
    char dir[] = "./diskXXXXXX";
    if (argc < 2 || !mkdtemp(dir)) return 2;
    char full[4096]; if (!realpath(dir, full)) return 2;
    disk::root = full;
    int rc = 2;
    std::string mode = argv[1];
    if (mode == "explore" && argc > 5) { Thorough = atoi(argv[5]); rc = explore(argv[2], atoi(argv[3]), atoi(argv[4])); }
    if (mode == "noload") rc = noload();
    unlink(dat().c_str()); unlink(bak().c_str()); rmdir(full);
    return rc;
}
