// C21: handles of the bundled stop states against spec/StopHandles.tla
#include "vk.h"
#include "stop_token.hpp"
using vk::Val;
namespace
{
    struct Sut : vk::Sut
    {
        static inline int NS = 2, NT = 2;
        std::vector<std::unique_ptr<std::stop_source>> s; std::vector<std::unique_ptr<std::stop_token>> t;
        Sut()
        {
            for (int i = 0; i < NS; ++i) s.push_back(std::make_unique<std::stop_source>(std::nostopstate));
            for (int i = 0; i < NT; ++i) t.push_back(std::make_unique<std::stop_token>());
        }
        Val obs(Val v)
        {
            Val a, b, e, f; 
            for (auto& x : s) a.push(Val::t(int(x->stop_requested()), int(x->stop_possible())));
            for (auto& x : t) b.push(Val::t(int(x->stop_requested()), int(x->stop_possible())));
            std::vector<std::stop_token> distinct;
            auto add = [&](std::stop_token k, bool state) { if (!state) return; for (auto& d : distinct) if (d == k) return; distinct.push_back(k); };
            for (auto& x : s) { Val r; for (auto& y : s) { bool q = *x == *y; r.push(int((*x != *y) == q ? -1 : q)); } e.push(r); add(x->get_token(), x->stop_possible()); }
            for (auto& x : t) { Val r; for (auto& y : t) { bool q = *x == *y; r.push(int((*x != *y) == q ? -1 : q)); } f.push(r); add(*x, !(*x == std::stop_token())); }
            return Val::t(v, a, b, e, f, (int)distinct.size());
        }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            int i = o.n(1) - 1, j = o.size() > 2 ? o.n(2) - 1 : 0, v = 0;
            if (n == "new") *s[i] = std::stop_source();
            else if (n == "nostate") s[i] = std::make_unique<std::stop_source>(std::nostopstate);
            else if (n == "request") v = s[i]->request_stop();
            else if (n == "copy") { auto& x = *s[j]; *s[i] = x; }
            else if (n == "move") { auto& x = *s[j]; *s[i] = std::move(x); }
            else if (n == "copynew") s[i] = std::make_unique<std::stop_source>(*s[j]);
            else if (n == "movenew") s[i] = std::make_unique<std::stop_source>(std::move(*s[j]));
            else if (n == "swap") s[i]->swap(*s[j]);
            else if (n == "get") *t[i] = s[j]->get_token();
            else if (n == "tnone") t[i] = std::make_unique<std::stop_token>();
            else if (n == "tcopy") { auto& x = *t[j]; *t[i] = x; }
            else if (n == "tmove") { auto& x = *t[j]; *t[i] = std::move(x); }
            else if (n == "tcopynew") t[i] = std::make_unique<std::stop_token>(*t[j]);
            else if (n == "tmovenew") t[i] = std::make_unique<std::stop_token>(std::move(*t[j]));
            else if (n == "tswap") t[i]->swap(*t[j]);
            else return Val::t("?");
            return obs(v);
        }
        Val random_op(vk::Rng& g) override
        {
            static const char* a[] = { "new", "nostate", "request", "request" };
            static const char* b[] = { "copy", "move", "swap", "copynew", "movenew" };
            static const char* c[] = { "tcopy", "tmove", "tswap", "tcopynew", "tmovenew" };
            int i = 1 + vk::rnd(g, NS), j = 1 + vk::rnd(g, NS), p = 1 + vk::rnd(g, NT), q = 1 + vk::rnd(g, NT);
            switch (vk::rnd(g, 8))
            {
            case 0: case 1: return Val::t(a[vk::rnd(g, 4)], i);
            case 2: case 3: { int k = vk::rnd(g, 5); if (k == 4 && i == j) k = 0; return Val::t(b[k], i, j); }
            case 4: case 5: return Val::t("get", p, i);
            case 6: return Val::t("tnone", p);
            default: { int k = vk::rnd(g, 5); if (k == 4 && p == q) k = 0; return Val::t(c[k], p, q); }
            }
        }
    };
}
int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d", &Sut::NS, &Sut::NT);
    return vk::main<Sut>(argc, argv);
}
