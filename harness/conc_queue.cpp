// C20: UpdateQueue under all schedules, against spec/UpdateQueue.tla
#include "interleave.h"
#include "Awl/UpdateQueue.h"
#include <stdexcept>
using namespace sched;
namespace
{
    struct Op { int what, update, kind, child; };     // 0 push, 1 clear
    enum { PLAIN, PUSHES, THROWS, CLEARS };
    awl::UpdateQueue<int, const int&>* queue;
    std::function<void(int, const int&)> update(int u, int kind, int child);
    void push(int u, int kind, int child)
    {
        ev("push", self(), u);
        queue->Push(update(u, kind, child));
        ev("pushed", self(), u);
    }
    void clear() { ev("clear", self()); queue->ClearPending(); ev("cleared", self()); }
    struct Big { long x[6]; };
    std::function<void(int, const int&)> update(int u, int kind, int child)
    {
        Big b = { { u, u, u, u, u, u } };
        return [u, kind, child, b](int a, const int& r)
        {
            ev("run", self(), u, a, r);
            for (long x : b.x) check(x == u, "an update was damaged");
            if (kind == PUSHES) push(child, child % 3 == 0 ? THROWS : PLAIN, 0);
            if (kind == CLEARS) clear();
            ev("ran", self(), u, kind == THROWS ? 0 : 1);
            if (kind == THROWS) throw std::runtime_error("update");
        };
    }
    void apply(int a)
    {
        ev("apply", self(), a);
        bool ok = true;
        try { queue->ApplyUpdates(a, a); } catch (const std::runtime_error&) { ok = false; }
        ev("applied", self(), ok);
    }
    void scenario()
    {
        int next = 1;
        std::vector<std::vector<Op>> programs;
        std::vector<int> before;
        int applies;
        bool apply_in_thread;
        {
            Quiet q;
            int n = 1 + rnd(2);
            for (int t = 0; t < n; ++t)
            {
                programs.emplace_back();
                for (int k = 1 + rnd(3); k > 0; --k)
                {
                    int kind = rnd(3) ? PLAIN : rnd(4);
                    programs.back().push_back({ rnd(6) == 0, next, kind, next + 1 });
                    next += 2;
                }
            }
            for (int k = rnd(3); k > 0; --k) { before.push_back(next); next += 2; }
            applies = 1 + rnd(3); apply_in_thread = rnd(2);
        }
        queue = new awl::UpdateQueue<int, const int&>();
        for (int u : before) push(u, u % 5 ? PLAIN : PUSHES, u + 1);
        std::vector<std::thread> threads;
        for (auto& p : programs) threads.emplace_back([&p] { for (auto& o : p) if (o.what == 1) clear(); else push(o.update, o.kind, o.child); });
        auto applier = [applies] { for (int a = 0; a < applies; ++a) apply(10 + a); };
        if (apply_in_thread) threads.emplace_back(applier); else applier();
        for (auto& t : threads) t.join();
        apply(50);
        if (applies == 2) apply(51);
        delete queue;
        { Quiet q; }
        threads.clear(); threads.shrink_to_fit();
        check(allocated() == 0, "updates are left behind");
    }
}
int main(int argc, char** argv) { return sched::main(argc, argv, scenario); }
