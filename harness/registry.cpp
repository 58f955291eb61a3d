// C49: chains of registered objects and factories against spec/Registry.tla.
#include "vk.h"
#include "Awl/StaticChain.h"
#include "Awl/StaticFactory.h"
#include <new>
using vk::Val; using vk::Rng;
namespace
{
    // registered before main
    struct Thing { int v = 0; Thing(int v = 0) : v(v) {} };
    awl::StaticLink<Thing> la("a", 1), lb("b", 2), lc("c", 3);
    struct Made { int v; };
    AWL_FACTORY(Made, f) { return Made{ 1 }; }
    AWL_FACTORY(Made, g) { return Made{ 2 }; }
    Made MakeIt(int x) { return Made{ x }; }
    namespace other { AWL_REGISTER_FACTORY(MakeIt, g) }

    Val codes(const std::string& s) { Val v; for (unsigned char c : s) v.push((int)c); return v; }
    std::string text(const Val& v) { std::string s; for (auto& x : v.a) s += (char)x.i; return s; }
    using F2 = awl::FactoryFuncPtr<int>; using F3 = awl::FactoryFuncPtr<std::string, int, const std::string&>; using P = std::unique_ptr<int>; using F4 = awl::FactoryFuncPtr<P, P>;
    template <int F> int f2() { return F; }
    template <int F> std::string f3(int n, const std::string& s) { return std::string(n, char('A' + F)) + s; }
    template <int F> P f4(P p) { *p += F; return p; }
    template <class T> struct Chain
    {
        std::vector<awl::StaticLink<T>*> links; std::vector<char*> names;
        template <class... A> int add(const std::string& n, A&&... a)
        {
            char* p = strdup(n.c_str()); names.push_back(p);
            links.push_back(new awl::StaticLink<T>(p, std::forward<A>(a)...));
            if (links.back()->name() != p) return -1;
            return (int)links.size();
        }
        // The links outlive the program normally: the chain is emptied here
        ~Chain()
        {
            auto& c = const_cast<awl::StaticChain<T>&>(awl::static_chain<T>());
            c.~StaticChain<T>(); new (&c) awl::StaticChain<T>();
            for (auto* l : links) delete l;
            for (auto* p : names) free(p);
        }
        template <class S> Val find(const std::string& n, S show)
        {
            const auto& c = awl::static_chain<T>();
            std::vector<char> buf(n.begin(), n.end()); buf.push_back(0);
            auto i = c.find(n), j = c.find(buf.data());
            if (i != j) return Val("found differently by a string");
            if (i == c.end()) return Val::t();
            int pos = 1; for (auto k = c.begin(); k != i; ++k) ++pos;
            if (i->name() != n || i->included() == false) return Val("another name");
            if (*i != links.at(links.size() - pos)) return Val("another link");
            return Val::t(pos, show(i->value()));
        }
        template <class S> Val list(S show)
        {
            Val v; for (auto* l : awl::static_chain<T>()) v.push(Val::t(codes(l->name()), show(l->value()))); return v;
        }
    };
    struct Sut : vk::Sut
    {
        Chain<int> c0; Chain<std::string> c1; Chain<F2> c2; Chain<F3> c3; Chain<F4> c4;
        static int num(int x) { return x; } static Val str(const std::string& s) { return codes(s); }
        static int i2(F2 f) { return f(); } static int i3(F3 f) { return f(1, "")[0] - 'A'; } static int i4(F4 f) { return *f(std::make_unique<int>(0)); }
        Val apply(const Val& o) override
        {
            const std::string& op = o.name();
            if (op == "register")
            {
                const std::string n = text(o[2]); const int v = o.n(3);
                switch (o.n(1))
                {
                case 0: return c0.add(n, v);
                case 2: return c2.add(n, v == 0 ? &f2<0> : v == 1 ? &f2<1> : &f2<2>);
                case 3: return c3.add(n, v == 0 ? &f3<0> : v == 1 ? &f3<1> : &f3<2>);
                default: return c4.add(n, v == 0 ? &f4<0> : v == 1 ? &f4<1> : &f4<2>);
                }
            }
            if (op == "text") return c1.add(text(o[1]), size_t(o.n(2)), char(o.n(3)));
            if (op == "find")
            {
                const std::string n = text(o[2]);
                switch (o.n(1)) { case 0: return c0.find(n, num); case 1: return c1.find(n, str); case 2: return c2.find(n, i2); case 3: return c3.find(n, i3); default: return c4.find(n, i4); }
            }
            if (op == "list") switch (o.n(1)) { case 0: return c0.list(num); case 1: return c1.list(str); case 2: return c2.list(i2); case 3: return c3.list(i3); default: return c4.list(i4); }
            if (op == "change")
            {
                auto i = awl::static_chain<int>().find(text(o[1])); if (i == awl::static_chain<int>().end()) return 0;
                i->value() = o.n(2); return 1;
            }
            if (op == "create")
            {
                std::vector<char> n; for (auto& x : o[2].a) n.push_back((char)x.i); n.push_back(0);
                try
                {
                    switch (o.n(1))
                    {
                    case 2: return Val::t("made", Val::t(awl::create<int>(n.data())));
                    case 3: { const std::string s = text(o[3][1]); return Val::t("made", codes(awl::create<std::string, int, const std::string&>(n.data(), o[3].n(0), s))); }
                    default: return Val::t("made", Val::t(*awl::create<P>(n.data(), std::make_unique<int>(o[3].n(0)))));
                    }
                }
                catch (const awl::FactoryException& e)
                {
                    if (e.What() != "Factory function '" + std::string(n.data()) + "' not found.") return Val(e.What());
                    return Val::t("unknown", o[2]);
                }
            }
            // static
            Val a, b; for (auto* l : awl::static_chain<Thing>()) { a.push((int)l->name()[0]); if (awl::static_chain<Thing>().find(l->name())->value().v != l->name()[0] - 'a' + 1) return Val("another value"); }
            b = Val::t(awl::create<Made>("f").v, awl::create<Made>("g").v);
            Val c; for (auto* l : awl::static_chain<awl::FactoryFuncPtr<Made, int>>()) c.push((int)l->name()[0]);
            c.push(awl::create<Made>("g", 7).v);
            try { awl::create<Made>("f", 7); return Val("a function of another signature"); } catch (const awl::FactoryException&) {}
            return Val::t(a, b, c);
        }
        std::vector<std::string> used;
        Val random_op(Rng& r) override
        {
            auto name = [&] {
                std::string s;
                if (!used.empty() && vk::rnd(r, 2)) { s = used[vk::rnd(r, (int)used.size())]; switch (vk::rnd(r, 7)) { case 0: s += 'a'; break; case 3: if (s.size() > 1) s.back() ^= 1; break; case 1: if (!s.empty()) s.pop_back(); break; case 2: if (!s.empty()) s[0] ^= 32; break; } }
                else for (int n = vk::rnd(r, vk::rnd(r, 4) ? 30 : 300); n > 0; --n) s += char(vk::rnd(r, 2) ? 'a' + vk::rnd(r, 2) : 1 + vk::rnd(r, 255));
                for (auto& c : s) if (!c) c = 'x';
                used.push_back(s); return codes(s); };
            const int k = vk::rnd(r, 5);
            switch (vk::rnd(r, 6))
            {
            case 0: case 1: if (k == 1) return Val::t("text", name(), vk::rnd(r, 5), 97 + vk::rnd(r, 20)); return Val::t("register", k, name(), k ? vk::rnd(r, 3) : vk::rnd(r, 1000) - 500);
            case 2: return Val::t("find", k, name());
            case 3: return Val::t("change", name(), vk::rnd(r, 1000));
            case 4: return Val::t("list", k);
            default: { const int s = 2 + vk::rnd(r, 3); Val n = name(); return s == 2 ? Val::t("create", s, n, Val::t()) : s == 3 ? Val::t("create", s, n, Val::t(vk::rnd(r, 4), name())) : Val::t("create", s, n, Val::t(vk::rnd(r, 1000))); }
            }
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
