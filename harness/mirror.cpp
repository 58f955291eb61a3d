// C13: mirror_set against spec/Mirror.tla. Every node has its own element order.
#include "vk.h"
#include "Awl/MirrorSet.h"
using vk::Val;

namespace
{
    struct Cmp
    {
        using is_transparent = void;
        int mode = 0;
        int key(int e) const { return mode == 0 ? e : mode == 1 ? -e : mode == 2 ? (e % 3) * 1000 + e : (e * 7919) % 104729; }
        bool operator()(int a, int b) const { return key(a) < key(b); }
    };
    using Set = awl::observable_set<int, Cmp>;
    using Mirror = awl::mirror_set<int, Cmp>;

    struct Sut : vk::Sut
    {
        static inline int NS = 1, NM = 2, NK = 2;
        std::vector<std::unique_ptr<Set>> s; std::vector<std::unique_ptr<Mirror>> m;
        int seq = 0;
        Sut()
        {
            for (int i = 0; i < NS; ++i) s.push_back(std::make_unique<Set>(Cmp{ i }));
            for (int i = 0; i < NM; ++i) m.push_back(std::make_unique<Mirror>(Cmp{ (i + 1) % 4 }));
        }
        Set& S(int i) { return *s.at(i - 1); }
        Mirror& M(int i) { return *m.at(i - NS - 1); }
        template <class C> static Val view(const C& c, bool& ok)
        {
            std::vector<int> f, r;
            for (int x : c) f.push_back(x);
            for (auto i = c.rbegin(); i != c.rend(); ++i) r.push_back(*i);
            auto comp = c.value_comp();
            for (size_t i = 0; i < f.size(); ++i)
            {
                if (i && !comp(f[i - 1], f[i])) ok = false;
                if (c[i] != f[i] || c.at(i) != f[i] || c.index_of(f[i]) != i || !c.contains(f[i]) || c.find(f[i]) == c.end() || r[f.size() - 1 - i] != f[i]) ok = false;
            }
            if (c.size() != f.size() || c.empty() != f.empty() || (f.size() && (c.front() != f.front() || c.back() != f.back()))) ok = false;
            std::sort(f.begin(), f.end());
            return Val(f);
        }
        Val obs()
        {
            Val v; bool ok = true;
            for (auto& x : s) v.push(view(*x, ok));
            for (auto& x : m) v.push(view(*x, ok));
            return Val::t(v, ok);
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            auto A = [&](int k) { return o.n(k); };
            ++seq;
            if (n == "insert") { if (A(2) % 2) S(A(1)).insert(A(2)); else S(A(1)).emplace(A(2)); }
            else if (n == "erase") S(A(1)).erase(A(2));
            else if (n == "clear") S(A(1)).clear();
            else if (n == "destroy")
            {
                if (A(1) <= NS) { s[A(1) - 1].reset(); s[A(1) - 1] = std::make_unique<Set>(Cmp{ seq % 4 }); }
                else { m[A(1) - NS - 1].reset(); m[A(1) - NS - 1] = std::make_unique<Mirror>(Cmp{ seq % 4 }); }
            }
            else if (n == "reflect") { if (A(2) <= NS) M(A(1)).reflect(S(A(2))); else M(A(1)).reflect(M(A(2))); }
            else if (n == "unsub") M(A(1)).UnsubscribeSelf();
            else if (n == "movenew")
            {
                if (A(1) <= NS) { s[A(1) - 1].reset(); s[A(1) - 1] = std::make_unique<Set>(std::move(S(A(2)))); }
                else { m[A(1) - NS - 1].reset(); m[A(1) - NS - 1] = std::make_unique<Mirror>(std::move(M(A(2)))); }
            }
            else if (n == "massign") { if (A(1) <= NS) S(A(1)) = std::move(S(A(2))); else M(A(1)) = std::move(M(A(2))); }
            else if (n == "migrate") S(A(1)).migrate(std::move(S(A(2))));
            else if (n == "query") return Val::t(int(M(A(1)).contains(A(2))), M(A(1)).size());
            else throw std::runtime_error("op");
            return obs();
        }
        std::map<int, int> src;
        bool below(int n, int k) { return n == k || (n > NS && src[n] && below(src[n], k)); }
        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int i = 1 + R(NS), j = 1 + R(NS), x = NS + 1 + R(NM), y = 1 + R(NS + NM), k = 1 + R(NK), w = R(100);
                if (w < 30) return Val::t("insert", i, k);
                if (w < 45) return Val::t("erase", i, k);
                if (w < 47) return Val::t("clear", i);
                if (w < 52 && vk::wide) continue;
                if (w < 52) { int d = R(3) ? x : i; for (auto& q : src) if (q.first == d || q.second == d) q.second = 0; return Val::t("destroy", d); }
                if (w < 72) { if (!src[x] && M(x).empty() && !below(y, x)) { src[x] = y; return Val::t("reflect", x, y); } }
                else if (w < 75) { if (src[x]) { src[x] = 0; return Val::t("unsub", x); } }
                else if (w < 90)
                {
                    int a = R(2) ? i : x, b = a <= NS ? j : NS + 1 + R(NM);
                    if (a == b || (b > NS && below(b, a))) continue;
                    if (a > NS) src[a] = 0;
                    for (auto& q : src) if (q.second == a) q.second = 0;
                    for (auto& q : src) if (q.second == b) q.second = a;
                    if (a > NS) { src[a] = src[b]; src[b] = 0; }
                    return Val::t(R(2) ? "movenew" : "massign", a, b);
                }
                else if (w < 95) { if (i != j && !S(j).empty()) return Val::t("migrate", i, j); }
                else return Val::t("query", x, k);
            }
        }
        ~Sut() { if (seq % 2) s.clear(); }
    };
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d", &Sut::NS, &Sut::NM, &Sut::NK);
    return vk::main<Sut>(argc, argv);
}
