// C60: vector_set and ring with elements, comparers and allocators that fail, against spec/Failing.tla.
// VK_MODE 1: the elements cannot be moved without a copy.
#include "vk.h"
#include "Awl/VectorSet.h"
#include "Awl/Ring.h"
#include <map>
using vk::Val;
namespace
{
    int K = 1, V = 2, N = 2, L = 2, Mode = 0;
    struct Boom {};
    long left = 0, live = 0, blocks[3] = {}; bool errors = false;
    void tick() { if (left && --left == 0) throw Boom(); }
    std::map<void*, std::pair<int, size_t>> owners;

    template <bool Movable> struct El
    {
        int v; El* self = this;
        explicit El(int x) : v((tick(), x)) { ++live; }
        El(const El& e) : v((tick(), e.get())) { ++live; }
        El(El&& e) noexcept requires Movable : v(e.get()) { e.v = 99; ++live; }
        El& operator=(const El& e) { tick(); v = e.get(); return *this; }
        ~El() { if (self != this) errors = true; self = nullptr; --live; }
        int get() const { if (self != this) errors = true; return v; }
    };
    template <bool M> struct Less
    {
        using is_transparent = void;
        static int k(int x) { return x; } static int k(const El<M>& e) { return e.get(); }
        template <class A, class B> bool operator()(const A& a, const B& b) const { tick(); return k(a) < k(b); }
    };
    template <class T> struct Alloc
    {
        using value_type = T; int id = 1;
        Alloc() = default; explicit Alloc(int i) : id(i) {}
        template <class U> Alloc(const Alloc<U>& a) : id(a.id) {}
        T* allocate(size_t n) { tick(); T* p = (T*)::operator new(n * sizeof(T)); owners[p] = { id, n }; ++blocks[id]; return p; }
        void deallocate(T* p, size_t n)
        {
            auto i = owners.find(p);
            if (i == owners.end() || i->second != std::make_pair(id, n)) errors = true;
            if (i != owners.end()) { --blocks[i->second.first]; owners.erase(i); }
            ::operator delete(p);
        }
        template <class U> bool operator==(const Alloc<U>& a) const { return id == a.id; }
    };
    template <int Kind, bool M> struct Types;
    template <bool M> struct Types<1, M> { using C = awl::vector_set<El<M>, Less<M>, Alloc<El<M>>>; };
    template <bool M> struct Types<2, M> { using C = awl::ring<El<M>, Alloc<El<M>>>; };

    struct Any { virtual ~Any() = default; virtual Val apply(const Val&) = 0; };
    template <int Kind, bool M> struct World : Any
    {
        using E = El<M>; using C = typename Types<Kind, M>::C; using A = Alloc<E>;
        std::vector<std::unique_ptr<C>> s; std::vector<int> ids;
        static std::unique_ptr<C> make(int id, int cap)
        {
            if constexpr (Kind == 1) return std::make_unique<C>(Less<M>(), A(id));
            else { if (cap) return std::make_unique<C>(cap, A(id)); return std::make_unique<C>(A(id)); }
        }
        World() : ids(N, 1) { left = 0; live = 0; blocks[1] = blocks[2] = 0; errors = false; owners.clear(); for (int i = 0; i < N; ++i) s.push_back(make(1, 0)); }
        ~World() override { left = 0; s.clear(); if (live || blocks[1] || blocks[2] || errors) { printf("MISMATCH at the end %ld elements and %ld, %ld blocks are left\n", live, blocks[1], blocks[2]); vk::dump_last(); _exit(3); } }
        Val content(C& c)
        {
            Val r; for (auto& e : c) r.push(e.get());
            Val b; for (auto i = c.rbegin(); i != c.rend(); ++i) b.push((*i).get());
            std::reverse(b.a.begin(), b.a.end());
            if (r.str() != b.str() || c.size() != r.a.size() || c.empty() != r.a.empty()) return Val("inconsistent");
            for (size_t i = 0; i < c.size(); ++i) if (c[i].get() != r.a[i].i || c.at(i).get() != r.a[i].i) return Val("inconsistent");
            return r;
        }
        int cap(C& c) { if constexpr (Kind == 2) return (int)c.capacity(); else return 0; }
        Val owned()
        {
            Val v; for (auto& c : s) v.push(Val::t(cap(*c), content(*c)));
            return Val::t(v, blocks[1], blocks[2], live);
        }
        // Nothing is lost or shared, whatever the contents are
        bool consistent()
        {
            long n = 0, b[3] = {};
            for (int i = 0; i < N; ++i) { n += s[i]->size(); b[ids[i]] += Kind == 1 ? (long)s[i]->size() : cap(*s[i]) > 0; if (content(*s[i]).s.size()) return false; }
            return n == live && b[1] == blocks[1] && b[2] == blocks[2] && !errors;
        }
        Val run(const Val& o, const std::unique_ptr<E>& x)
        {
            const std::string& n = o.name(); int i = o.n(1) - 1; C& c = *s[i];
            auto j = [&] { return o.n(2) - 1; };
            if (n == "new") { auto p = make(o.n(2), o.n(3)); s[i] = std::move(p); ids[i] = o.n(2); return 0; }
            if (n == "clear") { c.clear(); return 0; }
            if (n == "copynew") { auto p = std::make_unique<C>(std::as_const(*s[j()])); s[i] = std::move(p); ids[i] = ids[j()]; return 0; }
            if (n == "assign") { c = std::as_const(*s[j()]); return 0; }
            if (n == "movenew") { auto p = std::make_unique<C>(std::move(*s[j()])); s[i] = std::move(p); ids[i] = ids[j()]; return 0; }
            if (n == "massign") { c = std::move(*s[j()]); ids[i] = ids[j()]; return 0; }
            if (n == "swap") { std::swap(c, *s[j()]); std::swap(ids[i], ids[j()]); return 0; }
            if constexpr (Kind == 1)
            {
                auto result = [&](auto r) -> Val { if (r.first == c.end() || r.first->get() != o.n(2)) return Val("another element"); return (int)r.second; };
                if (n == "build")
                {
                    // the list exists before and after
                    auto il = [&](std::initializer_list<E> l) { long k = left; (void)k; left = armed; auto p = Mode2 ? std::make_unique<C>(l, A(o.n(2))) : std::make_unique<C>(l, Less<M>(), A(o.n(2))); left = 0; return p; };
                    left = 0; auto p = il({ E(o.n(3)), E(o.n(4)) });
                    s[i] = std::move(p); ids[i] = o.n(2); return 0;
                }
                if (n == "insert") return result(c.insert(std::as_const(*x)));
                if (n == "insertm") return result(c.insert(std::move(*x)));
                if (n == "emplace") return result(c.emplace(o.n(2)));
                if (n == "erase") return c.erase(o.n(2));
                if (n == "find") { bool b = c.find(o.n(2)) != c.end(); if (c.contains(o.n(2)) != b) return Val("contains"); return (int)b; }
            }
            else
            {
                if (n == "pushb") { c.push_back(std::as_const(*x)); return 0; }
                if (n == "pushbm") { c.push_back(std::move(*x)); return 0; }
                if (n == "pushf") { c.push_front(std::as_const(*x)); return 0; }
                if (n == "pushfm") { c.push_front(std::move(*x)); return 0; }
                if (n == "pushown") { c.push_back(std::as_const(c.front())); return 0; }
                if (n == "popf") { c.pop_front(); return 0; }
                if (n == "popb") { c.pop_back(); return 0; }
                if (n == "reserve") { c.reserve(o.n(2)); return 0; }
            }
            throw std::runtime_error("op");
        }
        long armed = 0; bool Mode2 = false;
        std::vector<int> values(C& c) { std::vector<int> r; for (auto& e : c) r.push_back(e.get()); return r; }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            int i = o.n(1) - 1;
            bool weak = n == "assign" || (Mode && n.compare(0, 4, "push") == 0 && Kind == 2 && s[i]->size() == (size_t)cap(*s[i]));
            bool value = n == "insert" || n == "insertm" || n.compare(0, 4, "push") == 0;
            Mode2 = !Mode2;
            for (long k = 1;; ++k)
            {
                std::string before = owned().str();
                std::unique_ptr<E> x; if (value && n != "pushown") x = std::make_unique<E>(o.n(2));
                armed = k; left = k; Val r; bool failed = false;
                try { r = run(o, x); } catch (const Boom&) { failed = true; }
                left = 0; 
                if (failed && x && n != "insertm" && n != "pushbm" && n != "pushfm" && x->get() != o.n(2)) return Val("the argument was changed");
                x.reset();
                if (errors) return Val("memory");
                if (!failed) { if (!consistent()) return Val("not consistent: " + owned().str()); return Val::t(r, owned()); }
                if (k > 20000) return Val("it never succeeds");
                if (!weak) { if (owned().str() != before) return Val("changed by a failure: " + before + " to " + owned().str()); continue; }
                if (!consistent()) return Val("inconsistent after a failure: " + owned().str());
                // a part of what is assigned, or without what a push drops
                auto now = values(*s[i]); auto old = saved;
                if (n == "assign")
                {
                    auto src = values(*s[o.n(2) - 1]);
                    if (now.size() > src.size() || !std::equal(now.begin(), now.end(), src.begin())) return Val("a failed assignment left something else");
                    s[i]->clear();
                    if (owned().a.empty()) return Val("?");
                    if constexpr (Kind == 1) for (int v : keep(i)) s[i]->insert(E(v));
                    else { auto p = make(ids[i], oldcap); for (int v : keep(i)) p->push_back(E(v)); s[i] = std::move(p); }
                }
                else if constexpr (Kind == 2)
                {
                    auto rest = keep(i); auto all = rest;
                    if (n.compare(0, 5, "pushf") == 0) rest.pop_back(); else rest.erase(rest.begin());
                    if (now != rest && now != all) return Val("a failed push left something else");
                    auto p = make(ids[i], oldcap); for (int v : all) p->push_back(E(v)); s[i] = std::move(p);
                }
                if (owned().str() != before) return Val("not restored");
            }
        }
        std::vector<int> saved; int oldcap = 0;
        const std::vector<int>& keep(int) { return saved; }
        void save(int i) { saved = values(*s[i]); oldcap = cap(*s[i]); }
    };
    template <int Kind, bool M> struct Saving : World<Kind, M>
    {
        Val apply(const Val& o) override { this->save(o.n(1) - 1); return World<Kind, M>::apply(o); }
    };
    struct Sut : vk::Sut
    {
        std::unique_ptr<Any> w;
        Sut()
        {
            if (K == 1) { if (Mode) w = std::make_unique<Saving<1, false>>(); else w = std::make_unique<Saving<1, true>>(); }
            else { if (Mode) w = std::make_unique<Saving<2, false>>(); else w = std::make_unique<Saving<2, true>>(); }
            caps.assign(N, 0); size.assign(N, 0);
        }
        std::vector<int> caps, size;
        Val apply(const Val& o) override
        {
            Val r = w->apply(o);
            if (r.a.size() == 2) for (int i = 0; i < N; ++i) { caps[i] = r[1][0][i].n(0); size[i] = (int)r[1][0][i][1].a.size(); }
            return r;
        }
        Val random_op(vk::Rng& r) override
        {
            int i = 1 + vk::rnd(r, N), v = 1 + vk::rnd(r, V);
            int k = vk::rnd(r, 20);
            static const char* two[] = { "copynew", "assign", "movenew", "massign", "swap" };
            if (k < 5) { int j = 1 + vk::rnd(r, N); if (k != 1 && j == i) j = i % N + 1; return Val::t(two[k], i, j); }
            if (k == 5) return vk::rnd(r, 3) ? Val::t("new", i, 1 + vk::rnd(r, 2), K == 1 ? 0 : vk::rnd(r, L + 1)) : Val::t("clear", i);
            if (K == 1)
            {
                if (k == 6) return Val::t("build", i, 1 + vk::rnd(r, 2), v, 1 + vk::rnd(r, V));
                static const char* one[] = { "insert", "insertm", "emplace", "erase", "find" };
                return Val::t(one[vk::rnd(r, 5)], i, v);
            }
            if (k == 6 || !caps[i - 1]) return Val::t("reserve", i, 1 + vk::rnd(r, L));
            if (k < 11 && size[i - 1]) { static const char* no[] = { "popf", "popb", "pushown", "pushown" }; return Val::t(no[k - 7], i); }
            static const char* one[] = { "pushb", "pushbm", "pushf", "pushfm" };
            return Val::t(one[vk::rnd(r, 4)], i, v);
        }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d,%d,%d", &K, &V, &N, &L);
    if (const char* p = getenv("VK_MODE")) Mode = atoi(p);
    return vk::main<Sut>(argc, argv);
}
