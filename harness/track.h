// A value whose lifetime is watched: every construction and destruction is counted, using a
// destroyed or never constructed object is reported.
#pragma once
#include <cstdio>
#include <cstdlib>

namespace vk
{
    struct Tracked
    {
        int v;
        Tracked* self;
        static inline long live = 0, errors = 0;

        Tracked(int x = 0) : v(x), self(this) { ++live; }
        Tracked(const Tracked& o) : v(o.get()), self(this) { ++live; }
        Tracked(Tracked&& o) noexcept : v(o.get()), self(this) { ++live; o.v = -1; }
        Tracked& operator=(const Tracked& o) { check(); v = o.get(); return *this; }
        Tracked& operator=(Tracked&& o) noexcept { check(); int x = o.get(); if (this != &o) o.v = -1; v = x; return *this; }
        ~Tracked() { check(); self = nullptr; v = -2; --live; }
        void check() const { if (self != this) ++errors; }
        int get() const { check(); return v; }
        bool operator==(const Tracked& o) const { return get() == o.get(); }
        bool operator<(const Tracked& o) const { return get() < o.get(); }
    };
}
