// Common part of the conformance harnesses: a small JSON value, the replay of
// behaviours generated by TLC and the recording of random histories for TLC.
//
//   harness replay FILE            FILE: one test per line, a JSON array of [op, "expected observation"]
//   harness random SEED N OUT      records N operations as {"o": op, "r": "observation"} lines
//
// Exit code 0: agreed with everything, 3: a mismatch (described on stdout). A crash, a failed
// assertion, a sanitizer report or a hang leaves the last operations in the file named by VK_LAST.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <fcntl.h>

namespace vk
{
    struct Val
    {
        enum Kind { Int, Str, Arr, Bool } kind = Arr;
        long long i = 0;
        std::string s;
        std::vector<Val> a;

        Val() {}
        Val(bool b) : kind(Bool), i(b) {}
        Val(int v) : kind(Int), i(v) {}
        Val(long v) : kind(Int), i(v) {}
        Val(long long v) : kind(Int), i(v) {}
        Val(unsigned v) : kind(Int), i(v) {}
        Val(unsigned long v) : kind(Int), i((long long)v) {}
        Val(unsigned long long v) : kind(Int), i((long long)v) {}
        Val(const char* v) : kind(Str), s(v) {}
        Val(std::string v) : kind(Str), s(std::move(v)) {}
        template <class T> Val(const std::vector<T>& v) { for (const T& x : v) a.push_back(Val(x)); }

        template <class... A> static Val t(A&&... x) { Val v; (v.a.push_back(Val(std::forward<A>(x))), ...); return v; }
        void push(Val v) { a.push_back(std::move(v)); }
        size_t size() const { return a.size(); }
        const Val& operator[](size_t k) const { return a.at(k); }
        int n(size_t k) const { return (int)a.at(k).i; }
        const std::string& name() const { return a.at(0).s; }

        void print(std::string& o) const
        {
            switch (kind)
            {
            case Int: o += std::to_string(i); break;
            case Bool: o += i ? "true" : "false"; break;
            case Str: o += '"'; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } o += '"'; break;
            case Arr: o += '['; for (size_t k = 0; k < a.size(); ++k) { if (k) o += ','; a[k].print(o); } o += ']'; break;
            }
        }
        std::string str() const { std::string o; print(o); return o; }

        static Val parse(const char*& p)
        {
            while (*p == ' ' || *p == ',') ++p;
            if (*p == '[')
            {
                ++p; Val v;
                for (;;)
                {
                    while (*p == ' ' || *p == ',') ++p;
                    if (*p == ']') { ++p; return v; }
                    if (!*p) throw std::runtime_error("vk: bad json");
                    v.a.push_back(parse(p));
                }
            }
            if (*p == '"')
            {
                ++p; Val v; v.kind = Str;
                while (*p && *p != '"') { if (*p == '\\') ++p; v.s += *p++; }
                ++p; return v;
            }
            if (!strncmp(p, "true", 4)) { p += 4; return Val(true); }
            if (!strncmp(p, "false", 5)) { p += 5; return Val(false); }
            char* e; long long n = strtoll(p, &e, 10);
            if (e == p) throw std::runtime_error("vk: bad json");
            p = e; return Val(n);
        }
        static Val parse(const std::string& s) { const char* p = s.c_str(); return parse(p); }
    };

    using Rng = std::mt19937_64;
    inline int rnd(Rng& g, int n) { return (int)(g() % (unsigned long long)n); } // 0..n-1
    // VK_WIDE: random histories get large, because these operations (separated by commas) are rare
    inline const char* const wide = getenv("VK_WIDE");
    inline bool too_rare(Rng& g, const std::string& name) { return wide && (std::string(",") + wide + ",").find("," + name + ",") != std::string::npos && rnd(g, 300); }

    // The system under test. A new one is made for every behaviour.
    struct Sut
    {
        virtual ~Sut() = default;
        virtual Val apply(const Val& op) = 0;               // performs op, returns the observation
        virtual Val random_op(Rng&) { return Val::t("none"); } // an operation enabled now
        virtual Val finish() { return Val(); }               // final checks; non-empty: a violation text
    };

    inline std::vector<std::string>& last_ops = *new std::vector<std::string>; // outlives the static objects
    // A hang: no operation was finished within half a minute of processor time.
    inline volatile long progressed = 0;
    void on_tick(int);
    inline void progress()
    {
        if (progressed++ == 0)
        {
            struct sigaction a {}; a.sa_handler = on_tick; a.sa_flags = SA_RESTART;
            sigaction(SIGPROF, &a, nullptr);
            struct itimerval t { { 6, 0 }, { 6, 0 } };
            setitimer(ITIMER_PROF, &t, nullptr);
        }
    }
    inline void note(const std::string& s)
    {
        progress();
        last_ops.push_back(s);
    }
    inline void dump_last()
    {
        const char* f = getenv("VK_LAST");
        int fd = f ? open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 2;
        if (fd < 0) return;
        for (auto& s : last_ops) { (void)!write(fd, s.data(), s.size()); (void)!write(fd, "\n", 1); }
        if (f) close(fd);
    }
    inline void on_signal(int sig)
    {
        dump_last();
        signal(sig, SIG_DFL);
        raise(sig);
    }
    inline void on_tick(int)
    {
        static long seen = 0; static int same = 0;
        if (seen != progressed) { seen = progressed; same = 0; }
        else if (++same == 5)
        {
            (void)!write(2, "what(): HANG: the operation does not end\n", 41);
            dump_last();
            signal(SIGABRT, SIG_DFL);
            abort();
        }
    }
    extern "C" inline void vk_asan_death() { dump_last(); }
    inline void install()
    {
        for (int s : {SIGABRT, SIGALRM, SIGTERM}) signal(s, on_signal);
        setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    }

    using Factory = std::function<Sut*(Rng&)>;

    inline int fail(const std::string& what)
    {
        printf("MISMATCH %s\n", what.c_str());
        dump_last();
        return 3;
    }

    inline int replay(const char* file, const std::function<Sut*()>& make)
    {
        std::ifstream in(file);
        std::string line;
        long tests = 0, steps = 0;
        while (std::getline(in, line))
        {
            Val t = Val::parse(line);
            last_ops.clear();
            Sut* s = make();
            for (const Val& st : t.a)
            {
                const Val& op = st[0];
                note(op.str());
                std::string got = s->apply(op).str();
                ++steps;
                if (st.size() > 1 && st[1].kind == Val::Str && !st[1].s.empty() && st[1].s != got)
                    return fail("test " + std::to_string(tests) + ": " + op.str() + " gave " + got + ", the specification says " + st[1].s);
            }
            Val f = s->finish();
            if (f.size()) return fail("test " + std::to_string(tests) + ": " + f.str());
            note("[\"destroy\"]");
            delete s;
            ++tests;
        }
        printf("OK tests=%ld steps=%ld\n", tests, steps);
        return 0;
    }

    inline int random(unsigned long seed, long n, const char* out, const std::function<Sut*(Rng&)>& make, int episode)
    {
        Rng g(seed);
        std::ofstream o(out);
        long done = 0, traces = 0;
        while (done < n)
        {
            last_ops.clear();
            Sut* s = make(g);
            o << "{\"o\":[\"reset\"],\"r\":\"[]\"}\n";
            ++traces;
            int len = wide ? episode : 1 + rnd(g, episode);
            for (int k = 0; k < len && done < n; ++k, ++done)
            {
                Val op = s->random_op(g);
                while (too_rare(g, op.name())) op = s->random_op(g);
                if (op.name() == "none") break;
                note(op.str());
                Val r = s->apply(op);
                std::string q; Val(r.str()).print(q);
                o << "{\"o\":" << op.str() << ",\"r\":" << q << "}\n";
            }
            Val f = s->finish();
            if (f.size()) { o.flush(); return fail(f.str()); }
            note("[\"destroy\"]");
            delete s;
        }
        o.flush();
        printf("OK traces=%ld events=%ld\n", traces, done);
        return 0;
    }

    template <class S>
    int main(int argc, char** argv, int episode = 200)
    {
        install();
        std::string mode = argc > 1 ? argv[1] : "";
        if (mode == "replay" && argc > 2)
            return replay(argv[2], []() -> Sut* { return new S(); });
        if (mode == "random" && argc > 4)
            return random(strtoul(argv[2], 0, 10), atol(argv[3]), argv[4], [](Rng&) -> Sut* { return new S(); },
                argc > 5 ? atoi(argv[5]) : episode);
        fprintf(stderr, "usage\n");
        return 2;
    }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace vk { inline const bool asan_installed = (__sanitizer_set_death_callback(vk_asan_death), true); }
#endif
