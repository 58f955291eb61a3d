// C10: vector_set against spec/VectorSet.tla
#include "vk.h"
#include "Awl/VectorSet.h"
#include <memory>
#include <map>

using vk::Val;

namespace
{
    struct El
    {
        int key, pay;
        El(int k, int p) : key(k), pay(p) {}
        // Reads of destroyed elements are visible even if the memory is reused.
        El(const El& e) : key(e.key), pay(e.pay) { ++live; }
        El(El&& e) noexcept : key(e.key), pay(e.pay) { e.pay = 100; }
        El& operator=(const El&) = default;
        ~El() { key = -1000; pay = -1000; }
        bool operator==(const El& e) const { return key == e.key && pay == e.pay; }
        static inline long live = 0;
    };

    // Compares elements and plain keys, as a transparent comparer.
    struct Cmp
    {
        using is_transparent = void;
        static int k(const El& e) { return e.key; }
        static int k(int e) { return e; }
        bool desc = false;
        template <class A, class B> bool operator()(const A& a, const B& b) const { return desc ? k(b) < k(a) : k(a) < k(b); }
    };

    using Set = awl::vector_set<El, Cmp>;

    struct Sut : vk::Sut
    {
        static inline int NS = 2, NL = 1, Big = 16, Keys = 3, Pay = 1, Pos = 4;
        std::vector<std::unique_ptr<Set>> s;
        struct Held { int set = 0; int key = 0; Set::iterator it; const El* adr = nullptr; };
        std::vector<Held> held;
        int keys, pay;

        Sut() : held(NL), keys(Keys), pay(Pay) { for (int i = 0; i < NS; ++i) s.push_back(std::make_unique<Set>()); }

        Set& S(int i) { return *s.at(i - 1); }
        int P(Set& x, Set::iterator i) { return i == x.end() ? -1 : i->key; }

        void drop(int i) { for (auto& h : held) if (h.set == i) h = Held(); }
        void dropKey(int i, int k) { for (auto& h : held) if (h.set == i && h.key == k) h = Held(); }

        // The other views of the container agree with its forward iteration.
        bool agree(Set& x, const std::vector<const El*>& f)
        {
            const Set& c = x;
            const size_t n = f.size();
            if (x.size() != n || c.empty() != (n == 0)) return false;
            std::vector<const El*> r, cf, cr, rr;
            for (auto i = x.rbegin(); i != x.rend(); ++i) r.push_back(&*i);
            for (auto i = c.begin(); i != c.end(); i++) cf.push_back(&*i);
            for (auto i = c.rbegin(); i != c.rend(); i++) cr.push_back(&*i);
            if (r.size() != n || cf != f || cr != r) return false;
            for (size_t i = 0; i < n; ++i) if (r[i] != f[n - 1 - i]) return false;
            auto b = x.end();
            for (size_t i = 0; i < n; ++i) { --b; if (&*b != r[i]) return false; }
            size_t pos = 0;
            for (auto i = x.begin(); i != x.end(); ++i, ++pos)
            {
                if (&x[pos] != f[pos] || &c.at(pos) != f[pos] || &*x.find_by_index(pos) != f[pos] || &*c.find_by_index(pos) != f[pos]) return false;
                if (x.index_of(i) != pos || c.index_of(Set::const_iterator(i)) != pos || x.index_of(f[pos]->key) != pos) return false;
                auto [j, p] = c.find2(f[pos]->key);
                if (j == c.end() || &*j != f[pos] || p != pos) return false;
                auto k = x.find(*f[pos]);
                if (k == x.end() || &*k != f[pos]) return false;
                if (pos > 0 && !x.value_comp()(*f[pos - 1], *f[pos])) return false;
            }
            if (n && (&x.front() != f[0] || &x.back() != f[n - 1] || &c.front() != f[0] || &c.back() != f[n - 1])) return false;
            return x.find_by_index(n) == x.end() && c.find_by_index(n + 3) == c.end();
        }

        Val obs(Val r)
        {
            Val sets;
            bool ok = true;
            std::vector<std::vector<const El*>> all;
            for (auto& p : s)
            {
                std::vector<const El*> f;
                for (auto& e : *p) { f.push_back(&e); if (f.size() > 5000) { ok = false; break; } }
                all.push_back(f);
                if (ok && !agree(*p, f)) ok = false;
                Val v;
                if ((int)f.size() <= Big) for (auto* e : f) v.push(Val::t(e->key, e->pay));
                else
                {
                    long sum = 0; int mn = 1 << 30, mx = -1;
                    for (auto* e : f) { sum += e->key; mn = std::min(mn, e->key); mx = std::max(mx, e->key); }
                    v.push(Val::t(f.size(), sum)); v.push(Val::t(mn, mx));
                }
                sets.push(v);
            }
            for (auto& h : held) if (h.set)
            {
                if (&*h.it != h.adr || h.adr->key != h.key) ok = false;
                bool in = false;
                for (auto* e : all.at(h.set - 1)) if (e == h.adr) in = true;
                if (!in) ok = false;
            }
            return Val::t(r, sets, ok);
        }

        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            auto A = [&](int k) { return o.n(k); };
            if (n == "insert" || n == "insertm" || n == "emplace")
            {
                Set& x = S(A(1));
                El e(A(2), A(3));
                auto [i, ok] = n == "insert" ? x.insert(std::as_const(e)) : n == "insertm" ? x.insert(std::move(e)) : x.emplace(A(2), A(3));
                if (n == "insert" && (e.key != A(2) || e.pay != A(3))) return Val::t("argument changed");
                return obs(Val::t(int(ok), P(x, i), i->pay));
            }
            if (n == "erase") { size_t c = S(A(1)).erase(A(2)); dropKey(A(1), A(2)); return obs(Val::t(c)); }
            if (n == "eraseit") { Held h = held[A(1) - 1]; S(h.set).erase(h.it); dropKey(h.set, h.key); return obs(Val()); }
            if (n == "eraseat")
            {
                Set& x = S(A(1));
                auto i = x.begin(); for (int k = 0; k < A(2); ++k) ++i;
                int key = i->key; x.erase(i); dropKey(A(1), key);
                return obs(Val());
            }
            if (n == "clear") { S(A(1)).clear(); drop(A(1)); return obs(Val()); }
            if (n == "copynew") { drop(A(1)); s[A(1) - 1] = std::make_unique<Set>(std::as_const(S(A(2)))); return obs(Val()); }
            if (n == "assign") { if (A(1) != A(2)) drop(A(1)); S(A(1)) = std::as_const(S(A(2))); return obs(Val()); }
            if (n == "movenew" || n == "massign")
            {
                drop(A(1));
                for (auto& h : held) if (h.set == A(2)) h.set = A(1);
                if (n == "movenew") s[A(1) - 1] = std::make_unique<Set>(std::move(S(A(2)))); else S(A(1)) = std::move(S(A(2)));
                return obs(Val());
            }
            if (n == "swap")
            {
                std::swap(S(A(1)), S(A(2)));
                for (auto& h : held) if (h.set == A(1)) h.set = A(2); else if (h.set == A(2)) h.set = A(1);
                return obs(Val());
            }
            if (n == "build")
            {
                drop(A(1));
                std::vector<El> v{ El(A(2), 1), El(A(3), 1), El(A(4), 1), El(A(2), 2) };
                if (A(2) % 2) S(A(1)) = Set(v.begin(), v.end(), Cmp());
                else S(A(1)) = Set({ El(A(2), 1), El(A(3), 1), El(A(4), 1), El(A(2), 2) });
                return obs(Val());
            }
            if (n == "new")
            {
                drop(A(1));
                Cmp c{ A(2) == 2 };
                if (S(A(1)).size() % 2) S(A(1)) = Set(c); else s[A(1) - 1] = std::make_unique<Set>(c);
                return obs(Val());
            }
            if (n == "hold")
            {
                Set& x = S(A(2)); auto i = x.find(A(3));
                if (i == x.end()) return Val::t("not found");
                held[A(1) - 1] = Held{ A(2), A(3), i, &*i };
                return obs(Val());
            }
            if (n == "deref") { Held& h = held[A(1) - 1]; return Val::t(Val::t(h.it->key, h.it->pay, S(h.set).index_of(h.it))); }
            if (n == "next") { Held& h = held[A(1) - 1]; auto i = h.it; ++i; return Val::t(Val::t(P(S(h.set), i))); }
            if (n == "prev")
            {
                Held& h = held[A(1) - 1]; auto i = h.it;
                if (i == S(h.set).begin()) return Val::t(Val::t(-1));
                --i; return Val::t(Val::t(P(S(h.set), i)));
            }
            Set& x = S(A(1));
            const Set& c = x;
            auto C = [&](Set::const_iterator i) { return i == c.end() ? -1 : i->key; };
            auto both = [&](int a, int b) { return a == b ? a : -7777; };
            if (n == "find") return Val::t(Val::t(both(P(x, x.find(A(2))), C(c.find(A(2)))), int(c.contains(A(2)))));
            if (n == "find2")
            {
                auto [i, p] = x.find2(A(2)); auto [j, q] = c.find2(A(2));
                return Val::t(Val::t(both(P(x, i), C(j)), both((int)p, (int)q)));
            }
            if (n == "bounds") return Val::t(Val::t(both(P(x, x.lower_bound(A(2))), C(c.lower_bound(A(2)))), both(P(x, x.upper_bound(A(2))), C(c.upper_bound(A(2))))));
            if (n == "indexof")
            {
                int r; try { r = (int)c.index_of(A(2)); } catch (const std::out_of_range&) { r = -1; }
                return Val::t(Val::t(r));
            }
            if (n == "at")
            {
                int r, q; try { r = c.at(A(2)).key; } catch (const std::out_of_range&) { r = -1; }
                try { q = x.at(A(2)).key; } catch (const std::out_of_range&) { q = -1; }
                return Val::t(Val::t(both(r, q), both(P(x, x.find_by_index(A(2))), C(c.find_by_index(A(2))))));
            }
            if (n == "equal") return Val::t(Val::t(int(c == S(A(2))), int(c != S(A(2)))));
            throw std::runtime_error("op");
        }

        // 0: any key, 1: ascending, 2: descending, 3: outside in
        int mode = -1, cur = 0;
        int pick(vk::Rng& g)
        {
            if (mode < 0) mode = vk::rnd(g, 5);
            if (vk::rnd(g, 4) == 0 || mode == 0 || mode == 4) return 1 + vk::rnd(g, keys);
            int c = cur++ % keys;
            return mode == 1 ? 1 + c : mode == 2 ? keys - c : (c % 2 ? keys - c / 2 : 1 + c / 2);
        }

        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            if (mode < 0) { pick(g); keys = 1 + R(Keys); if (R(2)) keys = std::min(keys, 12); if (vk::wide) keys = Keys; }
            int i = 1 + R(NS), j = 1 + R(NS), l = 1 + R(NL), w = R(100);
            if (R(3)) i = 1;
            Set& x = S(i);
            if (w < 40 && !(mode == 4 && R(2))) { static const char* n[] = { "insert", "insertm", "emplace" }; return Val::t(n[R(3)], i, pick(g), 1 + R(Pay)); }
            if (w < 50) return Val::t("erase", i, x.size() && R(4) ? x[R((int)x.size())].key : 1 + R(keys));
            if (w < 58) return x.size() ? Val::t("eraseat", i, R((int)x.size())) : Val::t("clear", i);
            if (w < 63) { if (held[l - 1].set) return Val::t("eraseit", l); if (x.size()) return Val::t("hold", l, i, x[R((int)x.size())].key); }
            if (w < 68 && x.size()) return Val::t("hold", l, i, x[R((int)x.size())].key);
            if (w < 75 && held[l - 1].set) { static const char* n[] = { "deref", "next", "prev" }; return Val::t(n[R(3)], l); }
            if (w < 85) { static const char* n[] = { "find", "find2", "bounds", "indexof", "bounds" }; return Val::t(n[R(5)], i, 1 + R(keys)); }
            if (w < 88) return Val::t("at", i, R(Pos + 1));
            if (w < 93 && R(2) && x.value_comp().desc == S(j).value_comp().desc) return Val::t("equal", i, j);
            if (R(3)) return Val::t("find", i, 1 + R(keys));
            if (i == j) return Val::t("assign", i, j);
            static const char* n[] = { "copynew", "assign", "movenew", "massign", "swap" };
            int q = R(7);
            if (q == 5) return R(4) && x.value_comp().desc == S(j).value_comp().desc ? Val::t("equal", i, j) : R(2) ? Val::t("new", i, 1 + R(2)) : Val::t("clear", i);
            if (q == 6) return Val::t("build", i, 1 + R(keys), 1 + R(keys), 1 + R(keys));
            return Val::t(n[q], i, j);
        }
    };
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d,%d", &Sut::NS, &Sut::NL, &Sut::Keys, &Sut::Pay, &Sut::Pos);
    return vk::main<Sut>(argc, argv);
}
