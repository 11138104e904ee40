// BOUNDS: the function and its dependencies given as lambda, function pointer, std::function and function object, of up to 40 bytes of state; 3 calls
#include "common/lazy_common.h"

static int source_a, source_b, evals;
static int read_a() { return source_a; }
static int read_b() { return source_b; }
static int combine(int x, int y) { ++evals; return vf_uf(1, x, y); }

// function pointers
HARNESS(pointers) {
    source_a = vf_nondet_i32(), source_b = vf_nondet_i32(), evals = 0;
    auto f = lazy(combine, read_a, &read_b);
    EVALS("nothing is evaluated at construction", evals == 0);
    Model<int, int> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(source_a, source_b);
        VALUE("function pointers: up to date", f() == vf_uf(1, source_a, source_b));
        EVALS("function pointers: evaluated only when needed", evals == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        source_a = vf_nondet_i32(), source_b = vf_nondet_i32();
    }
}

// type-erased functions
HARNESS(std_function) {
    int a = vf_nondet_i32(), e = 0;
    std::function<int(int)> body = [&](int x) { ++e; return vf_uf(1, x); };
    std::function<int()> dep = [&] { return a; };
    auto f = lazy(body, dep);
    EVALS("nothing is evaluated at construction", e == 0);
    Model<int> m;
    for (int i = 0; i < HIST(3); ++i) {
        bool again = m.call(a);
        VALUE("std::function: up to date", f() == vf_uf(1, a));
        EVALS("std::function: evaluated only when needed", e == m.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = vf_nondet_i32();
    }
}

// a lazy function in a std::function, also as a dependency
HARNESS(erased_lazy) {
    int a = vf_nondet_i32(), e1 = 0, e2 = 0;
    std::function<int()> g = lazy([&](int x) { ++e1; return vf_uf(1, x); }, [&] { return a; });
    std::function<int()> f = lazy([&](int x) { ++e2; return vf_uf(2, x); }, g);
    EVALS("nothing is evaluated at construction", e1 == 0 && e2 == 0);
    Model<int> m1, m2;
    for (int i = 0; i < HIST(3); ++i) {
        m1.call(a);
        bool again = m2.call(vf_uf(1, a));
        VALUE("type-erased lazy functions: up to date", f() == vf_uf(2, vf_uf(1, a)));
        EVALS("type-erased lazy functions: inner evaluated only when needed", e1 == m1.evaluations);
        EVALS("type-erased lazy functions: outer evaluated only when needed", e2 == m2.evaluations);
        if (i && again) COVER("changed");
        if (!again) COVER("same");
        a = vf_nondet_i32();
    }
}
