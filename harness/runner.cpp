// C46, C47: the test console against spec/Runner.tla. The tests of the chain are made for every run.
#include "vk.h"
#include "Awl/Testing/TestConsole.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/CommandLineProvider.h"
#include "Awl/Testing/UnitTest.h"
#include <thread>
using vk::Val;
using namespace awl::testing;
namespace
{
    struct Test { std::string name; int marks, what, times = 0; };
    std::vector<Test> tests; Val executions; std::string wrong; int waited = 0;
    template <int K> void body(const TestContext& context)
    {
        AWT_ATTRIBUTE(int, loop, -1); AWT_FLAG(list);
        if (list) wrong = "a test runs when the list is asked for";
        Test& t = tests[K]; int k = ++t.times; int stopped = 0;
        for (int j = 1; j <= t.marks; ++j) context.out << "{" << K + 1 << "." << k << "." << j << "}" << std::flush;
        if (t.what > 2)
        {
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
            while (!context.stopToken.stop_requested() && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            ++waited;
        }
        stopped = context.stopToken.stop_requested();
        executions.push(Val::t(K + 1, stopped));
        if (loop > 0 && k > loop) wrong = "too many executions";
        AWT_ASSERT(!(t.what == 1 || t.what == 4 || (t.what == 2 && k == 2)));
    }
    template <int... K> std::vector<TestFunc> bodies(std::integer_sequence<int, K...>) { return { body<K>... }; }
    const std::vector<TestFunc> funcs = bodies(std::make_integer_sequence<int, 24>());
    std::string text(const Val& v) { std::string s; for (auto& c : v.a) s += (char)c.i; return s; }
    std::string regex(const Val& r, bool group)
    {
        const std::string& n = r.name();
        if (n == "c") return std::string(strchr(".[](){}*+?|^$\\", (char)r.n(1)) ? "\\" : "") + (char)r.n(1);
        if (n == "any") return ".";
        if (n == "in") return (r.n(1) ? "[^" : "[") + text(r[2]) + "]";
        std::string s;
        if (n == "cat") s = regex(r[1], r[1].name() == "alt") + regex(r[2], r[2].name() == "alt");
        else if (n == "alt") s = regex(r[1], false) + "|" + regex(r[2], false);
        else { s = regex(r[1], true) + (n == "star" ? "*" : n == "plus" ? "+" : "?"); }
        return group ? "(" + s + ")" : s;
    }
    bool take(const std::string& s, size_t& p, const char* what) { size_t n = strlen(what); if (s.compare(p, n, what) != 0) return false; p += n; return true; }
    int number(const std::string& s, size_t& p) { int n = 0; while (p < s.size() && isdigit(s[p])) n = n * 10 + (s[p++] - '0'); return n; }
    Val tokens(const std::string& s, int& timeouts)
    {
        Val v; size_t p = 0; bool start = true;
        while (p < s.size())
        {
            if (start)
            {
                int best = -1;
                for (size_t k = 0; k < tests.size(); ++k)
                {
                    size_t q = p; const std::string& n = tests[k].name;
                    if (take(s, q, n.c_str()) && (s.compare(q, 3, "...") == 0 || s.compare(q, 9, " Looping ") == 0 || s[q] == '\n') && (best < 0 || n.size() > tests[best].name.size())) best = (int)k;
                }
                if (best >= 0) { v.push(Val::t("name", best + 1)); p += tests[best].name.size(); start = false; continue; }
            }
            start = false;
            if (take(s, p, "***************** Running ")) { if (isdigit(s[p])) v.push(Val::t("running", number(s, p))); }
            else if (take(s, p, "***************** The tests passed *****************")) v.push(Val::t("allpassed"));
            else if (take(s, p, "***************** The tests failed: ")) { v.push(Val::t("failed")); p = std::min(s.size(), s.find('\n', p)); }
            else if (take(s, p, "The following error has occurred: ")) { v.push(Val::t("error")); p = std::min(s.size(), s.find('\n', p)); }
            else if (take(s, p, " Looping ")) v.push(Val::t("loops", number(s, p)));
            else if (take(s, p, "Total ")) v.push(Val::t("total", number(s, p)));
            else if (take(s, p, "\tPassed within ")) v.push(Val::t("passed"));
            else if (take(s, p, "The timeout of ")) ++timeouts;
            else if (take(s, p, "{")) { int a = number(s, p); take(s, p, "."); int b = number(s, p); take(s, p, "."); int c = number(s, p); v.push(Val::t("mark", a, b, c)); }
            else { start = s[p] == '\n'; ++p; }
        }
        return v;
    }
    struct Sut : vk::Sut
    {
        unsigned turn = 0;
        Val apply(const Val& o) override
        {
            const Val& opt = o[1]; ++turn; std::vector<std::string> args{ "program" };
            auto add = [&](const char* n, const std::string& v) { args.push_back(n); args.push_back(v); };
            if (opt.n(0)) args.push_back("--list");
            static const char* const bad[] = { "[", "(", "*a", "a)", "[b-a]", "\\" };
            if (opt.n(1)) add("--filter", opt.n(1) == 1 ? regex(opt[2], false) : bad[turn % 6]);
            if (opt[3].size()) { std::string s; for (auto& x : opt[3].a) s += (s.empty() ? "" : " ") + text(x); add("--run", s); }
            if (opt.n(4) != -1) add("--loop", opt.n(4) == -2 ? "x" : std::to_string(opt.n(4)));
            static const char* const outs[] = { "", "all", "failed", "null", "nothing" };
            if (opt.n(5)) add("--output", outs[opt.n(5)]);
            if (opt.n(6) != -1) add("--timeout", opt.n(6) == -2 ? "soon" : opt.n(6) == 1 ? "15" : opt.n(6) == 2 ? "0" : "1000000");
            tests.clear(); executions = Val(); wrong = ""; waited = 0;
            for (auto& t : o[2].a) tests.push_back(Test{ text(t[0]), t.n(1), t.n(2) });
            std::vector<std::unique_ptr<TestLink>> links;
            for (size_t k = 0; k < tests.size(); ++k) links.push_back(std::make_unique<TestLink>(tests[k].name.c_str(), funcs[k]));
            std::vector<char*> argv; for (auto& s : args) argv.push_back(s.data());
            std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); int code = -1;
            try
            {
                if (argv.size() == 1 && turn % 2) code = Run(); else code = Run((int)argv.size(), argv.data());
            }
            catch (const std::exception& e) { wrong = std::string("an exception: ") + e.what(); }
            std::cout.rdbuf(old);
            Shutdown();
            int timeouts = 0; Val printed = tokens(out.str(), timeouts);
            if (timeouts != waited) wrong = "the timeout has elapsed " + std::to_string(waited) + " times and is reported " + std::to_string(timeouts) + " times";
            if (!wrong.empty()) return Val(wrong);
            return Val::t(code, executions, printed);
        }
        static Val ast(vk::Rng& r, int depth, bool empty)
        {
            switch (vk::rnd(r, depth > 0 ? 9 : 3))
            {
            case 0: case 1: return Val::t("c", (int)"ab_T.1"[vk::rnd(r, 6)]);
            case 2: if (vk::rnd(r, 2)) return Val::t("any"); else { Val s; for (char c : std::string(&"ab_T1"[vk::rnd(r, 5)])) s.push((int)c); return Val::t("in", vk::rnd(r, 2), s); }
            case 3: case 4: case 5: return Val::t("cat", ast(r, depth - 1, empty), ast(r, depth - 1, empty));
            case 6: return Val::t("alt", ast(r, depth - 1, empty), ast(r, depth - 1, empty));
            case 7: return empty ? Val::t(vk::rnd(r, 2) ? "star" : "opt", ast(r, depth - 1, false)) : Val::t("plus", ast(r, depth - 1, false));
            default: return Val::t("plus", ast(r, depth - 1, false));
            }
        }
        Val random_op(vk::Rng& r) override
        {
            Val ts, run; std::set<std::string> seen; bool filters = vk::rnd(r, 2);
            auto name = [&] { std::string s(1, "abT"[vk::rnd(r, 3)]); for (int k = vk::rnd(r, 4); k > 0; --k) s += "ab_T.1"[vk::rnd(r, 6)]; if (vk::rnd(r, 2)) s += "_Test"; return s; };
            auto codes = [](const std::string& s) { Val v; for (char c : s) v.push((int)c); return v; };
            for (int k = vk::rnd(r, filters ? 20 : 6); k > 0; --k)
            {
                std::string s = name(); if (!seen.insert(s).second && vk::rnd(r, 20)) continue;
                ts.push(Val::t(codes(s), vk::rnd(r, 3), vk::rnd(r, filters ? 20 : 4) == 0 ? 1 + vk::rnd(r, 2) : 0));
                if (!filters && vk::rnd(r, 3) == 0) run.push(codes(s));
            }
            if (!filters && vk::rnd(r, 12) == 0) run.push(codes(name()));
            int kind = vk::rnd(r, 12) == 0 ? 2 : vk::rnd(r, 4) ? 1 : 0;
            return Val::t("run", Val::t(int(vk::rnd(r, 5) == 0), kind, ast(r, 4, true), run, vk::rnd(r, 3) ? -1 : vk::rnd(r, 5) - (vk::rnd(r, 8) == 0 ? 2 : 0) < 0 ? -2 : vk::rnd(r, 5),
                vk::rnd(r, 2) ? 0 : vk::rnd(r, 12) == 0 ? 4 : 1 + vk::rnd(r, 3), vk::rnd(r, 6) ? -1 : vk::rnd(r, 6) ? 0 : -2), ts);
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }
