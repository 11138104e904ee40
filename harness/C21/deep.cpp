// BOUNDS: recursion of depth 20, 100 and 300, with state that is changed on the way down and up, also by mutual recursion through overloads; all values of the state
#include "common/tuple_common.h"

#include "pigro/overload.h"
#include "pigro/recursive.h"

using pigro::overload;
using pigro::recursive;

template<typename F>
static void depths(F f) {
    for (int n : { 20, 100, 300 }) {
        const int start = vf_nondet_i32();
        CHECK("as often as asked to", f(n, start) == start + n);
    }
    COVER("end");
}
HARNESS(down) {
    depths([](int n, int start) {
        auto f = recursive{ [](auto &&self, int n, int x) -> int { return n ? self(n - 1, x + 1) : x; } };
        return f(n, start);
    });
}
HARNESS(state) {
    depths([](int n, int start) {
        auto f = recursive{ [s = start](auto &&self, int n) mutable -> int {
            if (!n) return s;
            ++s;
            return self(n - 1);
        } };
        const int r = f(n);
        CHECK("kept for the next call", f(0) == r && f(1) == r + 1);
        return r;
    });
}
HARNESS(itself) {
    depths([](int n, int start) {
        const void *seen = nullptr;
        bool same = true;
        auto f = recursive{ [&, s = 5](auto &&self, int n, int x) -> int {
            if (seen) same = same && seen == &self;
            seen = &self;
            return n ? self(n - 1, x) + 1 : x;
        } };
        const int r = f(n, start);
        CHECK("the same object all the way", same && seen == &f);
        return r;
    });
}
HARNESS(mutual) {
    depths([](int n, int start) {
        auto f = recursive{ overload{
          [s = start](auto &&self, int n) mutable -> int { return n ? (++s, self(long(n - 1))) : s; },
          [t = 0](auto &&self, long n) mutable -> int { return n ? (++t, self(int(n - 1))) : self(0) ; },
          [](auto &&self, short n) mutable -> int { return self(int(n)) + n / 2; },
        } };
        return f(short(n));
    });
}
