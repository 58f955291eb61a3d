// A deterministic scheduler for the concurrent parts: the threads of a scenario are real threads, but only one of them runs at
// a time and the scheduler decides at every synchronization operation and at every access to shared memory which one goes on.
// Time is virtual. The scenario is compiled with -fsanitize=thread and linked without its run-time: interleave.cpp is the run-time.
#pragma once
#if defined(__x86_64__)
#include <immintrin.h>
#endif
#include <cstdint>
#include <functional>
#include <string>
#include <thread>
#include <vector>
namespace sched
{
    void event(const std::string& json);          // appends {"o":json} to the history
    int rnd(int n);                               // the same in all schedules of one program
    int self();                                   // number of the thread: 0 is the one that runs the scenario
    long now();                                   // virtual milliseconds
    void idle();                                  // returns when no other thread can go on without the passage of time
    void spin();                                  // a step of a waiting loop
    bool timing();                                // time may pass although threads can run
    [[noreturn]] void fail(const std::string& what);
    void check(bool ok, const char* what);
    long allocated();                             // blocks allocated by the scenario
    struct Quiet { Quiet(); ~Quiet(); };          // no scheduling points and no monitoring inside
    // exe SEED PROGRAMS SCHEDULES DFS OUT [PARAM...]: explores PROGRAMS programs, SCHEDULES random schedules and at most DFS
    // systematic ones of each, writes the different histories to OUT
    int main(int argc, char** argv, void (*scenario)());
    extern std::vector<int> params;
    template <class... A> std::string op(const char* name, A... a)
    {
        Quiet q;
        std::string s = std::string("[\"") + name + "\"";
        ((s += "," + std::to_string((long)a)), ...);
        return s + "]";
    }
    template <class... A> void ev(const char* name, A... a) { event(op(name, a...)); }
}
#define _mm_pause() ::sched::spin()
