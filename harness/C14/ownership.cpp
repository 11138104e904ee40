// BOUNDS: callables and tuples given as temporaries and as named objects; bound functions that outlive what they have been made of; nested bindings; 4 calls
#include "common/bind_common.h"

struct Counter {
    int n;
    int operator()(int a, int x) { return n = vf_uf(1, n, a, x); }
};

// temporaries are owned by the bound function
static auto make(int a, int s) {
    return compressed_tuple{ a } >> Counter{ s };
}
static auto make_back(int a, int s) {
    return compressed_tuple{ a } << Counter{ s };
}
HARNESS(owned) {
    int a = vf_nondet_i32(), s = vf_nondet_i32(), x = vf_nondet_i32();
    auto f = make(a, s);
    auto g = make_back(a, s);
    int n = s, k = s;
    for (int i = 0; i < HIST(3); ++i) {
        n = vf_uf(1, n, a, x);
        CHECK("owned callable and argument", f(x) == n);
        k = vf_uf(1, k, x, a);
        CHECK("owned callable and argument, back", g(x) == k);
        x = vf_nondet_i32();
    }
    COVER("end");
}

// named objects are referred to
HARNESS(named) {
    int s = vf_nondet_i32(), x = vf_nondet_i32();
    Counter c{ s };
    auto t = compressed_tuple{ 4 };
    auto f = t >> c;
    auto g = t << c;
    int n = s;
    for (int i = 0; i < HIST(4); ++i) {
        if (vf_nondet_bool()) {
            n = vf_uf(1, n, pigro::get<0>(t), x);
            CHECK("front", f(x) == n);
        } else {
            n = vf_uf(1, n, x, pigro::get<0>(t));
            CHECK("back", g(x) == n);
        }
        CHECK("the named callable is the one that is called", c.n == n);
        x = vf_nondet_i32();
        pigro::get<0>(t) = vf_nondet_i32(); // the named tuple is the one that is used
    }
    COVER("end");
}

HARNESS(owned_strings) {
    char ch = 'a' + vf_choose(3);
    {
        auto build = [&] {
            std::string local(30, ch);
            return compressed_tuple{ local, std::string("!") } >> [local](std::string &s, const std::string &e, bool grow) {
                if (grow) s += e;
                return s.size() + local.size();
            };
        };
        auto f = build();
        auto c = f;
        CHECK("owned", f(true) == 61 && f(true) == 62);
        CHECK("owned by the copy", c(false) == 60 && c(true) == 61);
        auto m = std::move(f);
        CHECK("moved", m(false) == 62);
    }
    CHECK("released", vf_live_heap() == 0);
}

HARNESS(nested_state) {
    int s = vf_nondet_i32(), x = vf_nondet_i32();
    auto inner = compressed_tuple{ s } >> [](int &n, int v) { return n = vf_uf(1, n, v); };
    auto f = compressed_tuple{ inner } >> [](auto &&g, int v) { return g(v); };
    auto g = compressed_tuple{ inner } << [](int v, auto &&g) { return g(v); };
    int n = s, k = s, o = s;
    for (int i = 0; i < HIST(3); ++i) {
        n = vf_uf(1, n, x);
        CHECK("a bound function keeps the state of a bound function", f(x) == n);
        if (vf_nondet_bool()) {
            k = vf_uf(1, k, x);
            CHECK("also from the back", g(x) == k);
        }
        if (vf_nondet_bool()) {
            o = vf_uf(1, o, x);
            CHECK("independent of the original", inner(x) == o);
        }
        x = vf_nondet_i32();
    }
    COVER("end");
}
