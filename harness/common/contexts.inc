// BOUNDS: calls from destructors during stack unwinding, from exception handlers, through references, std::ref, std::invoke and moved-from expressions; results that compare equal though they differ; 4 calls
#include "common/lazy_common.h"
#include <cmath>

template<typename F>
struct OnExit {
    F f;
    ~OnExit() { f(); }
};
template<typename F>
OnExit(F) -> OnExit<F>;

// while another exception is on its way
HARNESS(unwinding) {
    int a = vf_nondet_i32(), e = 0, eg = 0;
    auto g = lazy([&](int x) { ++eg; return x & 0xff; }, [&] { return a; });
    auto f = lazy([&](int x) { ++e; return vf_uf(1, x); }, g);
    Model<int> m, mg;
    auto call = [&] {
        mg.call(a), m.call(a & 0xff);
        VALUE("up to date, while unwinding", f() == vf_uf(1, a & 0xff));
        EVALS("evaluated only when needed, while unwinding", e == m.evaluations && eg == mg.evaluations);
    };
    if (vf_nondet_bool()) call();
    a = vf_nondet_i32();
    try {
        OnExit last{ call };
        OnExit change{ [&] { a = vf_nondet_i32(); } };
        OnExit again{ call };
        OnExit first{ call };
        throw 1;
    } catch (int) {
        call();
        COVER("handler");
        a = vf_nondet_i32();
        call();
    }
    call();
    a = vf_nondet_i32();
    call();
}

HARNESS(nested_unwinding) {
    int a = vf_nondet_i32(), e = 0;
    bool fail = false;
    auto f = lazy([&](int x) { ++e; if (fail) throw 2; return vf_uf(1, x); }, [&] { return a; });
    Model<int> m;
    m.call(a), f();
    try {
        OnExit failing{ [&] {
            fail = true, a = vf_nondet_i32();
            const int before = e;
            const bool again = m.last != std::tuple{ a };
            try {
                VALUE("up to date, if not evaluated", f() == vf_uf(1, a));
                EVALS("not evaluated for the same value", !again && e == before);
            } catch (int code) {
                EVALS("evaluated once, and failed", again && code == 2 && e == before + 1);
                m.last.reset();
                COVER("failed");
            }
            fail = false, m.evaluations = e;
            m.call(a);
            VALUE("up to date, after a failure", f() == vf_uf(1, a));
            EVALS("evaluated after a failure", e == m.evaluations);
        } };
        throw 1;
    } catch (int code) {
        VALUE("up to date", f() == vf_uf(1, a) && code == 1);
        EVALS("remembered", e == m.evaluations);
    }
    a = vf_nondet_i32();
    m.call(a);
    VALUE("up to date, afterwards", f() == vf_uf(1, a));
    EVALS("evaluated when needed, afterwards", e == m.evaluations);
}

HARNESS(ways) {
    int a = vf_nondet_i32(), e = 0;
    auto f = lazy([&](int x) { ++e; return vf_uf(1, x); }, [&] { return a; });
    auto r = std::ref(f);
    auto &&x = f;
    Model<int> m;
    for (int i = 0; i < HIST(4); ++i) {
        m.call(a);
        int v = 0;
        switch (vf_pick(5)) {
        case 0: v = r(); break;
        case 1: v = std::invoke(f); break;
        case 2: v = std::move(f)(); break;
        case 3: v = std::apply(f, std::tuple{}); break;
        default: v = std::forward<decltype(x)>(x)();
        }
        VALUE("up to date, whichever way it is called", v == vf_uf(1, a));
        EVALS("evaluated when needed, whichever way it is called", e == m.evaluations);
        if (i & 1) a = vf_nondet_i32();
    }
    COVER("end");
}

// equal, but not the same
struct Coarse {
    int key, rest;
    bool operator==(const Coarse &o) const { return key == o.key; }
};
HARNESS(coarse) {
    int a = vf_nondet_i32(), e = 0, ed = 0;
    auto f = lazy([&](int x) { ++e; return Coarse{ vf_uf(1, x), vf_uf(2, x) }; }, [&] { return a; });
    auto d = lazy([&](int x) { ++ed; return x < 0 ? -0.0 : x == 0 ? 1.0 : 0.0; }, [&] { return a; });
    Model<int> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(a);
        const auto r = f();
        VALUE("the result of the last evaluation itself", r.key == vf_uf(1, a) && r.rest == vf_uf(2, a));
        const double v = d();
        VALUE("including the sign of zero", std::signbit(v) == (a < 0) && (v == 1.0) == (a == 0));
        EVALS("evaluated when needed", e == m.evaluations && ed == m.evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}

// values of the library's own types, and the like
HARNESS(special) {
    int a = vf_nondet_i32(), e = 0;
    auto body = [&](auto... x) { ++e; return vf_uf(1, int(x)...); };
    auto f = lazy(body, [] { return pigro::idx<0>; });
    auto g = lazy(body, [] { return pigro::idx<1>; }, [&] { return a; }, pigro::idx<0>);
    auto h = lazy([](auto x) { return x; }, [] { return pigro::idx<1>; });
    auto n = lazy([&](std::nullptr_t, int x) { return x; }, nullptr, [&] { return a; });
    auto t = lazy([](pigro::compressed_tuple<int, int>, int x) { return vf_uf(2, x); }, pigro::compressed_tuple{ 1, 2 }, [&] { return a; });
    Model<int> m;
    for (int i = 0; i < HIST(2); ++i) {
        m.call(a);
        VALUE("integral constants", f() == vf_uf(1, 0) && g() == vf_uf(1, 1, a, 0) && h() == 1);
        VALUE("null pointers", n() == a);
        VALUE("tuples", t() == vf_uf(2, a));
        EVALS("evaluated only when needed", e == 1 + m.evaluations);
        a = vf_nondet_i32();
    }
    COVER("end");
}
