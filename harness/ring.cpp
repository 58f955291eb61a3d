// C17: ring against spec/Ring.tla
#include "vk.h"
#include "track.h"
#include "Awl/Ring.h"
using vk::Val; using vk::Tracked;

namespace
{
    using Ring = awl::ring<Tracked>;

    struct Sut : vk::Sut
    {
        static inline int NR = 2, NV = 2, NC = 3, Track = 0;
        std::vector<std::unique_ptr<Ring>> r;
        long base;
        Sut() : base(Tracked::live) { for (int i = 0; i < NR; ++i) r.push_back(std::make_unique<Ring>()); }
        Ring& R(int i) { return *r.at(i - 1); }

        bool agree(Ring& x, const std::vector<int>& f)
        {
            const Ring& c = x;
            const size_t n = f.size();
            if (x.size() != n) return false;
            std::vector<int> a, b, d, e;
            for (auto i = c.begin(); i != c.end(); i++) a.push_back(i->get());
            for (auto i = x.rbegin(); i != x.rend(); ++i) b.push_back(i->get());
            for (auto i = c.crbegin(); i != c.crend(); ++i) d.push_back((*i).get());
            for (auto i = x.end(); i != x.begin();) { --i; e.push_back(i->get()); }
            std::vector<int> rev(f.rbegin(), f.rend());
            if (a != f || b != rev || d != rev || e != rev) return false;
            for (size_t i = 0; i < n; ++i)
            {
                auto it = x.begin(); it += i;
                auto jt = x.end() - (std::ptrdiff_t)(n - i);
                if (x[i].get() != f[i] || c[i].get() != f[i] || x.at(i).get() != f[i] || &x[i] != &c.at(i) || &*it != &x[i] || &*jt != &x[i]) return false;
                if (it - x.begin() != (std::ptrdiff_t)i || !(it < x.end()) || (x.begin() + i) != it) return false;
            }
            if (x.end() - x.begin() != (std::ptrdiff_t)n) return false;
            if (n && (&x.front() != &x[0] || &c.front() != &c[0] || &x.back() != &x[n - 1] || &c.back() != &c[n - 1])) return false;
            return true;
        }
        Val obs(Val v)
        {
            Val rs; bool ok = true; 
            for (auto& p : r)
            {
                std::vector<int> f;
                for (auto& e : *p) f.push_back(e.get());
                if (!agree(*p, f)) ok = false;
                rs.push(Val::t(p->capacity(), Val(f), int(p->empty()), int(p->full())));
            }
            if (Tracked::errors) ok = false;
            return Val::t(v, rs, ok, Tracked::live - base);
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            auto A = [&](int k) { return o.n(k); };
            Ring& x = R(A(1));
            if (n == "pushback") { Tracked t(A(2)); x.push_back(t); if (t.v != A(2)) return Val::t("argument changed"); }
            else if (n == "pushfront") { const Tracked t(A(2)); x.push_front(t); if (t.v != A(2)) return Val::t("argument changed"); }
            else if (n == "pushbackm") { Tracked t(A(2)); x.push_back(std::move(t)); }
            else if (n == "pushfrontm") x.push_front(Tracked(A(2)));
            else if (n == "ownback") x.push_back(x[A(2) - 1]);
            else if (n == "ownfront") x.push_front(x[A(2) - 1]);
            else if (n == "popfront") x.pop_front();
            else if (n == "popback") x.pop_back();
            else if (n == "clear") x.clear();
            else if (n == "reserve") x.reserve(A(2));
            else if (n == "new") r[A(1) - 1] = A(2) ? std::make_unique<Ring>(A(2)) : std::make_unique<Ring>();
            else if (n == "copynew") r[A(1) - 1] = std::make_unique<Ring>(std::as_const(R(A(2))));
            else if (n == "assign") x = std::as_const(R(A(2)));
            else if (n == "movenew") r[A(1) - 1] = std::make_unique<Ring>(std::move(R(A(2))));
            else if (n == "massign") x = std::move(R(A(2)));
            else if (n == "set") x[A(2) - 1] = Tracked(A(3));
            else if (n == "at")
            {
                int a, b;
                try { a = x.at(A(2)).get(); } catch (const std::out_of_range&) { a = 0; }
                try { b = std::as_const(x).at(A(2)).get(); } catch (const std::out_of_range&) { b = 0; }
                return a == b ? Val::t(a) : Val::t("const at differs");
            }
            else if (n == "equal") return Val::t(int(x == R(A(2))), int(x != R(A(2))));
            else throw std::runtime_error("op");
            return obs(Val());
        }
        Val random_op(vk::Rng& g) override
        {
            auto Q = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int i = 1 + Q(NR), j = 1 + Q(NR), w = Q(100), v = 1 + Q(NV);
                Ring& x = R(i);
                if (x.capacity() == 0 && w < 60) return Val::t(Q(2) ? "reserve" : "new", i, 1 + Q(NC));
                if (w < 45 && x.capacity()) { static const char* n[] = { "pushback", "pushbackm", "pushfront", "pushfrontm" }; return Val::t(n[Q(4)], i, v); }
                if (w < 55 && x.size()) return Val::t(Q(2) ? "ownback" : "ownfront", i, 1 + Q((int)x.size()));
                if (w < 70 && x.size()) return Val::t(Q(2) ? "popfront" : "popback", i);
                if (w < 72) return Val::t("clear", i);
                if (w < 76) return Val::t("reserve", i, 1 + Q(NC));
                if (w < 77) return Val::t("new", i, Q(NC + 1));
                if (w < 82) return Val::t("at", i, Q((int)x.size() + 2));
                if (w < 88 && x.size()) return Val::t("set", i, 1 + Q((int)x.size()), v);
                if (w < 90) return Val::t("equal", i, j);
                if (w < 92) return Val::t(i == j && Q(2) ? "massign" : "assign", i, j);
                if (i != j) { static const char* n[] = { "copynew", "assign", "movenew", "massign", "equal" }; return Val::t(n[Q(5)], i, j); }
            }
        }
        Val finish() override
        {
            r.clear();
            if (Tracked::live != base || Tracked::errors) return Val::t("elements alive or destroyed twice at the end", Tracked::live - base, Tracked::errors);
            for (int i = 0; i < NR; ++i) r.push_back(std::make_unique<Ring>());
            return Val();
        }
    };
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &Sut::NR, &Sut::NV, &Sut::NC, &Sut::Track);
    return vk::main<Sut>(argc, argv);
}
