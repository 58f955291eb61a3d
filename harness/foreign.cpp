// C14: foreign_set against spec/Foreign.tla.
#include "vk.h"
#include "Awl/ForeignSet.h"
#include "Awl/MirrorSet.h"
using vk::Val;

namespace
{
    struct A { int pk; int fk; std::unique_ptr<int> heap; A(int p, int f) : pk(p), fk(f), heap(new int(p)) {} A(const A& o) : A(o.pk, o.fk) {} };
    using G = awl::field_getter<A, int>;
    int NS = 2, NF = 1, NP = 3, NG = 2, Kind = 0;

    template <class T> struct Maker;
    template <> struct Maker<A> { static A make(int p, int f) { return A(p, f); } static void drop(A*) {} };
    template <> struct Maker<std::shared_ptr<A>> { static auto make(int p, int f) { return std::make_shared<A>(p, f); } };
    template <> struct Maker<std::unique_ptr<A>> { static auto make(int p, int f) { return std::make_unique<A>(p, f); } };
    template <> struct Maker<A*> { static inline std::vector<std::unique_ptr<A>> all; static A* make(int p, int f) { all.push_back(std::make_unique<A>(p, f)); return all.back().get(); } };

    template <class T, bool Mirrored>
    struct Impl : vk::Sut
    {
        using Cmp = awl::KeyCompare<T, G>;
        using Src = awl::observable_set<T, Cmp>;
        using FS = awl::foreign_set<T, G, G>;
        using Mir = std::conditional_t<Mirrored, awl::mirror_set<T, Cmp>, int>;
        using VS = typename FS::value_type;
        using PT = typename VS::value_type;

        struct Fo;
        struct GroupObs : awl::Observer<awl::INotifySetChanged<PT>>
        {
            Fo* fo; int fk;
            void OnAdded(const PT& p) override { fo->ev(4, fk, p->pk); }
            void OnRemoving(const PT& p) override { fo->ev(5, fk, p->pk); }
            void OnClearing() override { fo->ev(6, fk, 0); }
        };
        struct Fo : awl::Observer<awl::INotifySetChanged<VS>>
        {
            std::vector<std::vector<int>> events; bool ok = true;
            std::map<int, std::unique_ptr<GroupObs>> groups;
            std::unique_ptr<FS> fs; std::unique_ptr<Mir> mir;
            bool skip = false;
            void ev(int k, int a, int b) { events.push_back({ k, a, b }); if (k == 6) dead.push_back(a); }
            std::vector<int> dead;
            void watch(const VS& vs)
            {
                int fk = (*vs.front()).fk;
                groups[fk] = std::make_unique<GroupObs>(); groups[fk]->fo = this; groups[fk]->fk = fk;
                vs.Subscribe(groups[fk].get());
            }
            void OnAdded(const VS& vs) override
            {
                int fk = vs.empty() ? -1 : (*vs.front()).fk;
                if (vs.size() != 1) ok = false;
                auto i = fs->find(fk); if (i == fs->end() || &*i != &vs) ok = false;
                ev(1, fk, vs.empty() ? -1 : (*vs.front()).pk);
                watch(vs);
            }
            void OnRemoving(const VS& vs) override
            {
                int fk = vs.empty() ? -1 : (*vs.front()).fk;
                if (vs.size() != 1) ok = false;
                auto i = fs->find(fk); if (i == fs->end() || &*i != &vs) ok = false;
                ev(2, fk, vs.empty() ? -1 : (*vs.front()).pk);
            }
            void OnClearing() override { ev(3, 0, 0); }
        };

        std::vector<std::unique_ptr<Src>> s; std::vector<std::unique_ptr<Fo>> f;
        int seq = 0;
        static std::unique_ptr<Src> newSrc() { return std::make_unique<Src>(Cmp{ G{ &A::pk } }); }
        Impl()
        {
            for (int i = 0; i < NS; ++i) s.push_back(newSrc());
            for (int i = 0; i < NF; ++i) { f.push_back(std::make_unique<Fo>()); fresh(*f.back()); }
        }
        void fresh(Fo& o) { o.fs.reset(); o.mir.reset(); o.fs = std::make_unique<FS>(G{ &A::pk }, G{ &A::fk }); o.fs->Subscribe(&o); }
        Src& S(int i) { return *s.at(i - 1); }
        Fo& Fx(int i) { return *f.at(i - 1); }

        Val obs()
        {
            Val evs, groups; bool ok = true;
            for (auto& p : f)
            {
                Fo& o = *p;
                // the destruction order of cleared groups is not specified
                for (size_t i = 0; i < o.events.size();)
                {
                    size_t j = i; while (j < o.events.size() && o.events[j][0] == 6) ++j;
                    std::sort(o.events.begin() + i, o.events.begin() + j);
                    i = j > i ? j : i + 1;
                }
                evs.push(Val(o.events)); o.events.clear();
                for (int d : o.dead) { auto i = o.groups.find(d); if (i != o.groups.end() && !i->second->IsSubscribed()) o.groups.erase(i); }
                o.dead.clear();
                Val gs; size_t n = 0; int prev = -1;
                for (const VS& vs : *o.fs)
                {
                    Val ks; int fk = vs.empty() ? -1 : (*vs.front()).fk;
                    std::vector<int> fw, bw;
                    for (auto& x : vs) { fw.push_back((*x).pk); if ((*x).fk != fk || *(*x).heap != (*x).pk) ok = false; }
                    for (auto i = vs.rbegin(); i != vs.rend(); ++i) bw.push_back((**i).pk);
                    std::reverse(bw.begin(), bw.end());
                    if (fw != bw || vs.size() != fw.size()) ok = false;
                    for (size_t k = 0; k < fw.size(); ++k) if (vs.index_of(fw[k]) != k || (*vs[k]).pk != fw[k]) ok = false;
                    gs.push(Val::t(fk, Val(fw)));
                    auto i = o.fs->find(fk);
                    if (i == o.fs->end() || &*i != &vs || o.fs->index_of(fk) != n || &(*o.fs)[n] != &vs || &o.fs->at(n) != &vs || fk <= prev) ok = false;
                    prev = fk; ++n;
                }
                if (o.fs->size() != n || o.fs->empty() != (n == 0) || (n && (&o.fs->front() != &*o.fs->begin() || &o.fs->back() != &*o.fs->rbegin()))) ok = false;
                groups.push(gs); ok = ok && o.ok;
            }
            return Val::t(evs, groups, ok);
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            auto a = [&](int k) { return o.n(k); };
            ++seq;
            if (n == "insert") { if (S(a(1)).contains(a(2)) && Kind == 3) {} else S(a(1)).insert(Maker<T>::make(a(2), a(3))); }
            else if (n == "erase") { if (a(2) % 2) S(a(1)).erase(a(2)); else { auto i = S(a(1)).find(a(2)); if (i != S(a(1)).end()) S(a(1)).erase(i); } }
            else if (n == "clear") S(a(1)).clear();
            else if (n == "destroy") { s[a(1) - 1].reset(); s[a(1) - 1] = newSrc(); }
            else if (n == "movenew") { s[a(1) - 1].reset(); s[a(1) - 1] = std::make_unique<Src>(std::move(S(a(2)))); s[a(2) - 1] = newSrc(); }
            else if (n == "massign") S(a(1)) = std::move(S(a(2)));
            else if (n == "migrate") S(a(1)).migrate(std::move(S(a(2))));
            else if (n == "build")
            {
                Fo& x = Fx(a(1)); x.fs.reset(); x.mir.reset();
                if constexpr (Mirrored)
                {
                    x.mir = std::make_unique<Mir>(Cmp{ G{ &A::pk } }); x.mir->reflect(S(a(2)));
                    x.fs = std::make_unique<FS>(*x.mir, G{ &A::pk }, G{ &A::fk });
                }
                else x.fs = std::make_unique<FS>(S(a(2)), G{ &A::pk }, G{ &A::fk });
                x.fs->Subscribe(&x);
                for (auto& vs : *x.fs) if (!vs.empty()) x.watch(vs); else x.ok = false;
            }
            else if (n == "sub")
            {
                Fo& x = Fx(a(1));
                if constexpr (Mirrored)
                {
                    if (x.fs->IsSubscribed()) x.fs->UnsubscribeSelf();
                    x.mir = std::make_unique<Mir>(Cmp{ G{ &A::pk } }); x.mir->Subscribe(x.fs.get()); x.mir->reflect(S(a(2)));
                }
                else S(a(2)).Subscribe(x.fs.get());
            }
            else if (n == "fdestroy") fresh(Fx(a(1)));
            else if (n == "fmove")
            {
                Fo& x = Fx(a(1));
                auto old = std::move(x.fs);
                x.fs = std::make_unique<FS>(std::move(*old));
                if (seq % 2 && old->size() != 0) x.ok = false;
            }
            else if (n == "query")
            {
                FS& x = *Fx(a(1)).fs; auto i = x.find(a(2)); int below = 0;
                for (auto& vs : x) if ((*vs.front()).fk < a(2)) ++below;
                return Val::t(int(i != x.end()), i != x.end() ? (int)i->size() : 0, below, x.size(), int(x.empty()));
            }
            else throw std::runtime_error("op");
            return obs();
        }
        std::map<int, int> on;
        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int i = 1 + R(NS), j = 1 + R(NS), x = 1 + R(NF), w = R(100);
                if (w < 50) return Val::t("insert", i, 1 + R(NP), 1 + R(NG));
                if (w < 76) return Val::t("erase", i, 1 + R(NP));
                if (w < 77) return Val::t("clear", i);
                if (w < 79 && vk::wide) continue;
                if (w < 79) { for (auto& q : on) if (q.second == i) q.second = 0; return Val::t("destroy", i); }
                if (w < 82 && i != j) { for (auto& q : on) if (q.second == i) q.second = 0; else if (q.second == j) q.second = i; return Val::t(R(2) ? "movenew" : "massign", i, j); }
                if (w < 83 && i != j && !S(j).empty()) return Val::t("migrate", i, j);
                if (w < 88) { on[x] = i; return Val::t("build", x, i); }
                if (w < 91) { if (!on[x] && S(i).empty()) { on[x] = i; return Val::t("sub", x, i); } continue; }
                if (w < 92) { on[x] = 0; return Val::t("fdestroy", x); }
                if (w < 95) return Val::t("fmove", x);
                return Val::t("query", x, 1 + R(NG));
            }
        }
        ~Impl()
        {
            if (seq % 2) s.clear();
            for (auto& o : f) o->fs.reset();
            if constexpr (std::is_same_v<T, A*>) { s.clear(); Maker<T>::all.clear(); }
        }
    };
    vk::Sut* make()
    {
        switch (Kind)
        {
        case 0: return new Impl<A, false>();
        case 1: return new Impl<std::shared_ptr<A>, false>();
        case 2: return new Impl<std::unique_ptr<A>, false>();
        case 3: return new Impl<A*, false>();
        default: return new Impl<A, true>();
        }
    }
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d,%d", &NS, &NF, &NP, &NG, &Kind);
    vk::install();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "replay") return vk::replay(argv[2], make);
    if (mode == "random") return vk::random(strtoul(argv[2], 0, 10), atol(argv[3]), argv[4], [](vk::Rng&) { return make(); }, atoi(argv[5]));
    return 2;
}
