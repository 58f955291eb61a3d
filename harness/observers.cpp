// C15: Observable and Observer against spec/Observers.tla
#include "vk.h"
#include "Awl/Observable.h"
using vk::Val;

namespace
{
    struct INotify { virtual void Called(int a, const std::string& b) = 0; virtual bool Asked(int a) = 0; virtual ~INotify() = default; };

    struct Source : public awl::Observable<INotify>
    {
        void Tell(int a, const std::string& b) { Notify(&INotify::Called, a, b); }
        bool Ask(int a) { return NotifyWhileTrue(&INotify::Asked, a); }
    };

    struct Sut;
    struct Handler : public awl::Observer<INotify>
    {
        Sut* sut; int slot; long tag = 4242;
        Handler(Sut* s, int n) : sut(s), slot(n) {}
        Handler(Handler&&) = default;
        Handler& operator=(Handler&&) = default;
        ~Handler() { tag = 0; }
        void Called(int a, const std::string& b) override { act(a, b == "text"); }
        bool Asked(int a) override { return act(a, true); }
        bool act(int a, bool ok);
    };

    struct Sut : vk::Sut
    {
        static inline int NO = 2, NB = 3;
        std::vector<std::unique_ptr<Source>> o;
        std::vector<Handler*> b;
        std::map<int, int> react;
        Val calls;
        int value = 0;
        Source* current = nullptr;

        Sut()
        {
            for (int i = 0; i < NO; ++i) o.push_back(std::make_unique<Source>());
            for (int i = 1; i <= NB; ++i) b.push_back(new Handler(this, i));
        }
        ~Sut()
        {
            // observers and observables die in different orders
            if (value % 2) o.clear();
            for (auto* x : b) delete x;
        }
        Source& S(int i) { return *o.at(i - 1); }
        Handler& H(int i) { return *b.at(i - 1); }
        Val obs(Val r)
        {
            Val x, y;
            for (auto& s : o) x.push(Val::t(s->size(), int(s->empty())));
            for (auto* h : b) y.push(int(h->IsSubscribed()));
            return Val::t(r, x, y);
        }
        Val apply(const Val& op) override
        {
            const std::string& n = op.name();
            auto A = [&](int k) { return op.n(k); };
            if (n == "sub") S(A(1)).Subscribe(&H(A(2)));
            else if (n == "unsub") S(A(1)).Unsubscribe(&H(A(2)));
            else if (n == "unsubself") H(A(2)).UnsubscribeSelf();
            else if (n == "unsubsafe") H(A(1)).UnsubscribeSafe();
            else if (n == "notify" || n == "while")
            {
                react.clear(); react[A(2)] = A(3); react[A(4)] = A(5);
                calls = Val(); current = &S(A(1)); order.clear();
                ++value;
                bool go = true;
                if (n == "notify") current->Tell(value, "text"); else go = current->Ask(value);
                for (auto*& h : b) if (!h) h = new Handler(this, int(&h - b.data()) + 1);
                return obs(Val::t(calls, int(go)));
            }
            else if (n == "destroy") { delete &H(A(1)); b[A(1) - 1] = new Handler(this, A(1)); }
            else if (n == "moveobs")
            {
                delete &H(A(1)); b[A(1) - 1] = new Handler(std::move(H(A(2)))); H(A(1)).slot = A(1);
            }
            else if (n == "assignobs") { H(A(1)) = std::move(H(A(2))); H(A(1)).slot = A(1); }
            else if (n == "destroyo") { o[A(1) - 1].reset(); o[A(1) - 1] = std::make_unique<Source>(); }
            else if (n == "moveo") { o[A(1) - 1].reset(); o[A(1) - 1] = std::make_unique<Source>(std::move(S(A(2)))); }
            else if (n == "assigno") S(A(1)) = std::move(S(A(2)));
            else throw std::runtime_error("op");
            return obs(Val());
        }
        std::vector<int> order; // subscribers of the current source, as far as they were called

        Val random_op(vk::Rng& g) override
        {
            auto R = [&](int n) { return vk::rnd(g, n); };
            for (;;)
            {
                int x = 1 + R(NO), y = 1 + R(NB), z = 1 + R(NB), w = 1 + R(NO), k = R(100);
                if (k < 35) { if (!H(y).IsSubscribed()) { where[y] = x; return Val::t("sub", x, y); } }
                else if (k < 38) return Val::t("unsubsafe", y);
                else if (k < 68) { if (y != z) return Val::t(R(2) ? "notify" : "while", x, y, R(5), z, R(5)); }
                else if (k < 74) return Val::t("destroy", y);
                else if (k < 86) { if (y != z) return Val::t(R(2) ? "moveobs" : "assignobs", y, z); }
                else if (k < 89) return Val::t("destroyo", x);
                else if (x != w) return Val::t(R(2) ? "moveo" : "assigno", x, w);
            }
        }
        std::map<int, int> where;
    };

    bool Handler::act(int a, bool ok)
    {
        Sut* s = sut;
        if (tag != 4242 || !ok || a != s->value) { s->calls.push("bad call"); return true; }
        s->calls.push(slot);
        s->order.push_back(slot);
        int r = s->react[slot];
        if (r == 1) UnsubscribeSelf();
        if (r == 2) { s->b[slot - 1] = nullptr; delete this; return true; }
        if (r == 3)
        {
            // the first subscriber that is still there is one that was called already
            for (int f : s->order)
                if (s->b[f - 1] && s->b[f - 1]->IsSubscribed()) { s->current->Unsubscribe(s->b[f - 1]); break; }
        }
        return r != 4;
    }
}

int main(int argc, char** argv)
{
    if (const char* p = getenv("VK_PARAMS")) sscanf(p, "%d,%d", &Sut::NO, &Sut::NB);
    return vk::main<Sut>(argc, argv);
}
