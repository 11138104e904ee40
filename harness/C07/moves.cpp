// BOUNDS: lazy functions that are moved, returned, passed by value, kept in std::function, std::tuple, std::vector and structs, after 0 to 2 calls; 3 calls afterwards
#include "common/lazy_common.h"

template<typename F>
struct Owner {
    int pad;
    F f;
};
template<typename F>
Owner(int, F) -> Owner<F>;

template<typename F>
static F pass(F f) { return f; }

template<int how>
static void relocated() {
    int a = vf_nondet_i32(), evals = 0, n = 0;
    Model<int> m;
    auto step = [&](auto &f) {
        bool again = m.call(a);
        CHECK("up to date", f() == vf_uf(1, a));
        CHECK("evaluated only when needed", evals == m.evaluations);
        if (again && n) COVER("again");
        if (!again) COVER("not again");
        a = vf_nondet_i32();
        ++n;
    };
    auto build = [&] {
        auto f = lazy([&](int x) { ++evals; return vf_uf(1, x); }, [&] { return a; });
        for (int i = vf_pick(3); i; --i) step(f);
        return pass(std::move(f));
    };
    if constexpr (how == 0) {
        auto f = build();
        for (int i = 0; i < HIST(3); ++i) step(f);
    } else if constexpr (how == 1) {
        std::function<int()> f = build();
        for (int i = 0; i < HIST(3); ++i) {
            step(f);
            auto g = std::move(f);
            f = std::move(g);
        }
    } else if constexpr (how == 2) {
        auto o = Owner{ 1, build() };
        auto p = std::make_unique<decltype(o)>(std::move(o));
        for (int i = 0; i < HIST(3); ++i) step(p->f);
    } else if constexpr (how == 3) {
        auto t = std::tuple{ 1, build(), 'c' };
        for (int i = 0; i < HIST(3); ++i) step(std::get<1>(t));
    } else {
        auto f = build();
        std::vector<decltype(f)> v;
        v.push_back(f);
        v.push_back(f); // reallocates
        for (int i = 0; i < HIST(3); ++i) step(v[0]);
    }
}
HARNESS(moved) { relocated<0>(); }
HARNESS(in_function) { relocated<1>(); }
HARNESS(in_struct) { relocated<2>(); }
HARNESS(in_tuple) { relocated<3>(); }
HARNESS(in_vector) { relocated<4>(); }

// a lazy function outlives everything it has been made of
HARNESS(outlives) {
    int source = vf_nondet_i32(), v = vf_nondet_i32();
    auto make = [&](int local) {
        auto g = lazy([local](int x) { return vf_uf(1, x, local); }, [&] { return source; });
        std::string text = "some text that does not fit in the object itself";
        return lazy([text](int x, const std::string &s, int y) { return s == text ? vf_uf(2, x, y) : -1; }, g, text, local);
    };
    auto f = make(v);
    for (int i = 0; i < HIST(3); ++i) {
        CHECK("up to date", f() == vf_uf(2, vf_uf(1, source, v), v));
        source = vf_nondet_i32();
    }
    COVER("end");
}
