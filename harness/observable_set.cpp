// C12: observable_set against spec/ObservableSet.tla
#include "vk.h"
#include "Awl/ObservableSet.h"
using vk::Val;

namespace
{
    struct El
    {
        int k; long magic = 31;
        El(int x) : k(x) {}
        El(const El& o) : k(o.k) {}
        El(El&& o) noexcept : k(o.k) { o.k = -5; }
        ~El() { magic = 0; }
    };
    struct Cmp
    {
        using is_transparent = void;
        static int key(const El& e) { return e.k; }
        static int key(int e) { return e; }
        template <class A, class B> bool operator()(const A& a, const B& b) const { return key(a) < key(b); }
    };
    using Set = awl::observable_set<El, Cmp>;

    struct Sut;
    struct Sub : public awl::Observer<awl::INotifySetChanged<El>>
    {
        Sut* sut; int id;
        Sub(Sut* s, int i) : sut(s), id(i) {}
        void OnAdded(const El& e) override { got(1, &e); }
        void OnRemoving(const El& e) override { got(2, &e); }
        void OnClearing() override { got(3, nullptr); }
        void got(int kind, const El* e);
    };

    struct Sut : vk::Sut
    {
        static inline int NS = 2, NK = 2, NB = 2;
        std::vector<std::unique_ptr<Set>> s; std::vector<std::unique_ptr<Sub>> b;
        std::vector<Set*> where;    // the set a subscriber follows
        Val log;
        Sut() : where(NB + 1)
        {
            for (int i = 0; i < NS; ++i) s.push_back(std::make_unique<Set>());
            for (int i = 1; i <= NB; ++i) b.push_back(std::make_unique<Sub>(this, i));
        }
        Set& S(int i) { return *s.at(i - 1); }
        Val obs(Val r)
        {
            Val c, f;
            for (auto& p : s) { Val x; for (auto& e : *p) x.push(e.magic == 31 ? e.k : -9); c.push(x); }
            for (auto& x : b) f.push(int(x->IsSubscribed()));
            return Val::t(r, log, c, f);
        }
        void redirect(Set* from, Set* to) { for (auto& w : where) if (w == from) w = to; else if (w == to) w = nullptr; }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            auto A = [&](int k) { return o.n(k); };
            log = Val();
            Set& x = S(A(1));
            const Set& c = x;
            if (n == "insert") { const El e(A(2)); auto r = x.insert(e); if (r.first->k != A(2) || e.k != A(2)) return Val::t("iterator"); return obs(Val::t(int(r.second))); }
            if (n == "insertm") { auto r = x.insert(El(A(2))); if (r.first->k != A(2)) return Val::t("iterator"); return obs(Val::t(int(r.second))); }
            if (n == "emplace") { auto r = x.emplace(A(2)); if (r.first->k != A(2)) return Val::t("iterator"); return obs(Val::t(int(r.second))); }
            if (n == "erase") { auto r = x.erase(A(2)); return obs(Val::t(r)); }
            if (n == "eraseit") { x.erase(x.find(A(2))); return obs(Val()); }
            if (n == "clear") { x.clear(); return obs(Val()); }
            if (n == "new" || n == "build")
            {
                auto old = std::move(s[A(1) - 1]); 
                Set* p = old.get();
                old.reset();
                for (auto& w : where) if (w == p) w = nullptr;
                s[A(1) - 1] = n == "new" ? std::make_unique<Set>() : std::make_unique<Set>(std::initializer_list<El>{ El(A(2)), El(NK), El(A(2)) });
                return obs(Val());
            }
            if (n == "sub") { where[A(2)] = &x; c.Subscribe(b[A(2) - 1].get()); return obs(Val()); }
            if (n == "unsub") { c.Unsubscribe(b[A(2) - 1].get()); where[A(2)] = nullptr; return obs(Val()); }
            if (n == "movenew")
            {
                Set* p = &x; auto old = std::move(s[A(1) - 1]); old.reset();
                for (auto& w : where) if (w == p) w = nullptr;
                Set* q = &S(A(2));
                s[A(1) - 1] = std::make_unique<Set>(std::move(*q));
                redirect(q, s[A(1) - 1].get());
                return obs(Val());
            }
            if (n == "massign") { x = std::move(S(A(2))); redirect(&S(A(2)), &x); return obs(Val()); }
            if (n == "migrate") { x.migrate(std::move(S(A(2)))); return obs(Val()); }
            if (n == "equal") return Val::t(int(c == S(A(2))), int(c != S(A(2))));
            if (n == "query")
            {
                int pos; try { pos = (int)c.index_of(A(2)); } catch (const std::out_of_range&) { pos = -1; }
                bool in = c.contains(A(2));
                if (in != (x.find(A(2)) != x.end()) || in != (c.find(A(2)) != c.end())) return Val::t("find");
                if (in && (x.at(pos).k != A(2) || c[pos].k != A(2))) return Val::t("bound");
                auto bounds = [&](auto& t) { auto l = t.begin(); while (l != t.end() && l->k < A(2)) ++l; auto u = l; while (u != t.end() && u->k <= A(2)) ++u; return t.lower_bound(A(2)) == l && t.upper_bound(A(2)) == u; };
                if (!bounds(x) || !bounds(c)) return Val::t("bound");
                if (!c.empty() && (c.front().k != c.begin()->k || c.back().k != c.rbegin()->k)) return Val::t("ends");
                return Val::t(int(in), pos, c.size(), int(c.empty()));
            }
            throw std::runtime_error("op");
        }
        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int i = 1 + R(NS), j = 1 + R(NS), k = 1 + R(NK), y = 1 + R(NB), w = R(100);
                if (w < 30) { static const char* n[] = { "insert", "insertm", "emplace" }; return Val::t(n[R(3)], i, k); }
                if (w < 45) return Val::t("erase", i, k);
                if (w < 52) { if (S(i).contains(k)) return Val::t("eraseit", i, k); }
                else if (w < 55) return Val::t(R(2) ? "clear" : "new", i);
                else if (w < 57) return Val::t("build", i, k);
                else if (w < 75) { if (!b[y - 1]->IsSubscribed()) return Val::t("sub", i, y); if (R(3) == 0 && where[y] == &S(i)) return Val::t("unsub", i, y); }
                else if (w < 85) return Val::t("query", i, k);
                else if (i != j) { static const char* n[] = { "movenew", "massign", "migrate", "equal" }; int q = R(4); if (q != 2 || !S(j).empty()) return Val::t(n[q], i, j); }
            }
        }
        ~Sut() { log = Val(); if (NS > 1) s.clear(); }
    };

    void Sub::got(int kind, const El* e)
    {
        Set* p = sut->where[id];
        if (kind == 3) { sut->log.push(Val::t(id, 3, 0, 0)); return; }
        if (e->magic != 31) { sut->log.push(Val::t(id, "dead element")); return; }
        bool in = p && p->contains(e->k) && &*p->find(e->k) == e;
        sut->log.push(Val::t(id, in ? kind : kind + 10, e->k, p ? p->size() : 0));
    }
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d", &Sut::NS, &Sut::NK, &Sut::NB);
    return vk::main<Sut>(argc, argv);
}
