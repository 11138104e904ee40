// BOUNDS: two instances of the same type; copies of copies; copies in a vector, a pair, std::optional and std::shared_ptr; functions without result; 3 to 5 operations
#include "common/typed.h"

static auto make(const int *a, int *evals) {
    return lazy([evals](int x) { ++*evals; return vf_uf(1, x); }, [a] { return *a; });
}
HARNESS(instances) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), ea = 0, eb = 0;
    auto f = make(&a, &ea), g = make(&b, &eb);
    Model<int> ma, mb;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) ma.call(a), CHECK("the first is up to date", f() == vf_uf(1, a));
        else mb.call(b), CHECK("the second is up to date", g() == vf_uf(1, b));
        CHECK("each is evaluated when needed", ea == ma.evaluations && eb == mb.evaluations);
        if (vf_nondet_bool()) a = vf_nondet_i32();
        else b = vf_nondet_i32();
    }
    COVER("end");
}

// three generations
HARNESS(generations) {
    int a = vf_nondet_i32(), e = 0;
    auto f = make(&a, &e);
    Model<int> m;
    if (vf_nondet_bool()) m.call(a), f();
    auto g = f;
    auto mg = m;
    mg.evaluations = 0;
    a = vf_nondet_i32();
    if (vf_nondet_bool()) mg.call(a), g();
    auto h = g;
    auto mh = mg;
    mh.evaluations = 0;
    a = vf_nondet_i32();
    for (int i = 0; i < HIST(3); ++i) {
        switch (vf_choose(3)) {
        case 0: m.call(a), CHECK("the original is up to date", f() == vf_uf(1, a)); break;
        case 1: mg.call(a), CHECK("the copy is up to date", g() == vf_uf(1, a)); break;
        default: mh.call(a), CHECK("the copy of the copy is up to date", h() == vf_uf(1, a));
        }
        CHECK("each is evaluated when needed", e == m.evaluations + mg.evaluations + mh.evaluations);
        if (i == 1) a = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(containers) {
    int a = vf_nondet_i32(), e = 0;
    auto f = make(&a, &e);
    using F = decltype(f);
    Model<int> m;
    if (vf_nondet_bool()) m.call(a), f();
    CHECK("evaluated when needed", e == m.evaluations);
    e = m.evaluations = 0;
    std::vector<F> v(2, f);
    v.reserve(5);
    std::optional<F> o{ v[1] };
    auto s = std::make_shared<F>(*o);
    std::pair<F, F> p{ std::move(*o), f };
    std::function<int()> q = *s;
    CHECK("copying evaluates nothing", e == 0);
    a = vf_nondet_i32();
    for (int i = 0; i < HIST(2); ++i) {
        const int n = m.call(a);
        e = 0;
        CHECK("in a vector", v[0]() == vf_uf(1, a) && e == n);
        CHECK("in a shared_ptr", (*s)() == vf_uf(1, a) && e == 2 * n);
        CHECK("in a pair", p.first() == vf_uf(1, a) && e == 3 * n);
        CHECK("in a std::function", q() == vf_uf(1, a) && e == 4 * n);
        CHECK("the original", f() == vf_uf(1, a) && e == 5 * n);
        CHECK("another one in a vector", v[1]() == vf_uf(1, a) && e == 6 * n);
        CHECK("another one in a pair", p.second() == vf_uf(1, a) && e == 7 * n);
        if (vf_nondet_bool()) a = vf_nondet_i32();
    }
    COVER("end");
}

HARNESS(no_result) {
    int a = vf_nondet_i32(), n = 0;
    auto f = lazy([&n](int) { ++n; }, [&a] { return a; });
    Model<int> m;
    for (int k = vf_pick(3); k; --k) m.call(a), f(), a = vf_nondet_i32();
    auto c = f;
    auto mc = m;
    mc.evaluations = 0;
    CHECK("copying runs nothing", n == m.evaluations);
    for (int i = 0; i < HIST(3); ++i) {
        if (vf_nondet_bool()) m.call(a), f();
        else mc.call(a), c();
        CHECK("each runs when needed", n == m.evaluations + mc.evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}
