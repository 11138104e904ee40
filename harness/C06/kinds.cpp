// BOUNDS: functions without result as lambda, function pointer, std::function and function object with state; copies and two instances; 3 to 4 calls
#include "common/lazy_common.h"

static int source, runs, seen;
static int ask() { return source; }
static void act(int x) { ++runs; seen = x; }

HARNESS(pointer) {
    source = vf_nondet_i32(), runs = 0;
    auto f = lazy(act, ask);
    static_assert(std::is_void_v<decltype(f())>);
    CHECK("does not run at construction", runs == 0);
    Model<int> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(source);
        f();
        CHECK("runs when needed, with the current value", runs == m.evaluations && seen == source);
        source = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(erased) {
    int a = vf_nondet_i32(), n = 0, last = 0;
    std::function<void(int)> body = [&](int x) { ++n; last = x; };
    std::function<void()> f = lazy(body, std::function<int()>{ [&] { return a; } });
    CHECK("does not run at construction", n == 0);
    Model<int> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(a);
        f();
        CHECK("runs when needed, with the current value", n == m.evaluations && last == a);
        a = vf_nondet_i32();
    }
    COVER("end");
}

struct Log {
    int count = 0;
    int *out;
    void operator()(int x) { *out = vf_uf(1, x, ++count); }
};
HARNESS(stateful) {
    int a = vf_nondet_i32(), out = 0;
    auto f = lazy(Log{ 0, &out }, [&] { return a; });
    static_assert(std::is_void_v<decltype(f())>);
    Model<int> m;
    for (int i = 0; i < HIST(4); ++i) {
        if (m.call(a)) out = 0;
        const int expected = out ? out : vf_uf(1, a, m.evaluations);
        f();
        CHECK("keeps its state in between the runs", out == vf_uf(1, a, m.evaluations));
        a = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(copied) {
    int a = vf_nondet_i32(), n = 0, last = 0;
    auto f = lazy([&](int x) { ++n; last = x; }, [&] { return a; });
    Model<int> m;
    for (int k = vf_pick(3); k; --k) {
        m.call(a);
        f();
        a = vf_nondet_i32();
    }
    auto c = f;
    auto mc = m;
    mc.evaluations = 0;
    for (int i = 0; i < HIST(3); ++i) {
        const int before = n;
        if (vf_nondet_bool()) {
            const bool again = m.call(a);
            f();
            CHECK("the original runs when needed", n == before + again && (!again || last == a));
            COVER("original");
        } else {
            const bool again = mc.call(a);
            c();
            CHECK("the copy runs when needed", n == before + again && (!again || last == a));
            COVER("copy");
        }
        a = vf_nondet_i32();
    }
}

static auto make(int *a, int *n) { return lazy([n](int) { ++*n; }, [a] { return *a; }); }
HARNESS(instances) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), na = 0, nb = 0;
    auto f = make(&a, &na), g = make(&b, &nb);
    Model<int> ma, mb;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) ma.call(a), f();
        else mb.call(b), g();
        CHECK("each runs when needed", na == ma.evaluations && nb == mb.evaluations);
        a = vf_nondet_i32(), b = vf_nondet_i32();
    }
    COVER("end");
}
