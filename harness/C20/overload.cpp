// BOUNDS: overload sets of 1 to 5 functions, stateless and stateful in all positions, lambdas, function objects and nested overloads; all values; up to 4 calls in any order
#include "common/tuple_common.h"

#include "pigro/overload.h"

using pigro::overload;
#define ANY vf_nondet_i32()

HARNESS(selection) {
    int x = ANY;
    char c = vf_nondet_i8();
    long l = vf_nondet_i64();
    const auto f = overload{
        [](int v) { return vf_uf(1, v); },
        [](char v) { return vf_uf(2, v); },
        [](long v) { return vf_uf(3, int(v)); },
        [](int v, char w) { return vf_uf(4, v, w); },
        [](auto &&) { return 5; },
    };
    CHECK("int", f(x) == vf_uf(1, x));
    CHECK("char", f(c) == vf_uf(2, c));
    CHECK("long", f(l) == vf_uf(3, int(l)));
    CHECK("two arguments", f(x, c) == vf_uf(4, x, c));
    CHECK("any other type", f(Empty{}) == 5 && f(nullptr) == 5 && f(true) == 5);
}

// each function has a state of its own, and keeps it
template<typename F>
static void histories(F f, int s) {
    int a = s, b = s, n = 0;
    for (unsigned i = vf_pick(2); i; --i) CHECK("before the copy", f('a') == (a = vf_uf(1, a)));
    auto c = f;
    int ca = a, cb = b;
    for (int i = 0; i < HIST(4); ++i) {
        switch (vf_pick(4)) {
        case 0: CHECK("state of the first function", f('a') == (a = vf_uf(1, a))); break;
        case 1: CHECK("state of the second function", f(1) == (b = vf_uf(2, b))); break;
        case 2: CHECK("state of the first function, copied", c('a') == (ca = vf_uf(1, ca))); break;
        default: CHECK("state of the second function, copied", c(1) == (cb = vf_uf(2, cb)));
        }
    }
    COVER("end");
}
HARNESS(stateful) {
    int s = ANY;
    histories(overload{ [n = s](char) mutable { return n = vf_uf(1, n); }, [n = s](int) mutable { return n = vf_uf(2, n); } }, s);
}
HARNESS(stateful_mixed) {
    int s = ANY;
    histories(overload{ [](Empty) { return 0; }, [n = s](int) mutable { return n = vf_uf(2, n); }, [](Point) { return 0; }, [n = s](char) mutable { return n = vf_uf(1, n); }, [] { return 0; } }, s);
}

HARNESS(positions) {
    int a = ANY, b = ANY, c = ANY;
    long l = vf_nondet_i64();
    auto f = overload{ [a](char) { return a; }, [](int x) { return x; }, [b, l](Empty) { return vf_uf(1, b, int(l)); }, [&c](Point) { return c; } };
    CHECK("captured values", f('x') == a && f(b) == b && f(Empty{}) == vf_uf(1, b, int(l)));
    c = ANY;
    CHECK("captured reference", f(Point{}) == c);
    CHECK("only the state takes space", sizeof(overload{ [](int) {}, [](char) {} }) == 1 && sizeof(overload{ [a](int) {}, [](char) {}, [b](Point) {} }) == 2 * sizeof(int));
}

struct Functor {
    int v;
    int operator()(const char *) const { return vf_uf(1, v); }
    int operator()(const char *) { return vf_uf(2, v); }
};
HARNESS(objects) {
    int a = ANY;
    auto f = overload{ Functor{ a }, overload{ [a](int x) { return vf_uf(3, a, x); }, [](Empty) { return 4; } } };
    const auto k = f;
    CHECK("function object", f("") == vf_uf(2, a));
    CHECK("constant function object", k("") == vf_uf(1, a));
    CHECK("nested", f(a) == vf_uf(3, a, a) && k(Empty{}) == 4);
    auto m = overload{ [p = std::make_unique<int>(a)](int) { return *p; }, [](char) { return 0; } };
    auto w = std::move(m);
    CHECK("move-only", w(1) == a && w('c') == 0);
}

HARNESS(references) {
    int a = ANY, x = ANY;
    auto f = overload{
        [&](int &v) -> int & { v = a; return v; },
        [](const int &v) { return -1; },
        [](int &&v) { return -2; },
    };
    const int k = x;
    CHECK("lvalue", &f(x) == &x && x == a);
    CHECK("constant", f(k) == -1);
    CHECK("temporary", f(5) == -2);
    CHECK("only what can be called", !std::is_invocable_v<decltype(f), Empty> && std::is_invocable_v<decltype(f), int>);
}
