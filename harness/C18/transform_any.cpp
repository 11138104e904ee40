// BOUNDS: transform and any on std::tuple, std::pair and std::array of 0 to 5 elements; all values; projections and predicates that are arbitrary functions of the element
#include "common/tuple_common.h"

#include "pigro/tuple_algorithms.h"

using pigro::any;
using pigro::transform;
#define ANY vf_nondet_i32()

HARNESS(project) {
    int a = ANY, b = ANY, c = ANY, d = ANY;
    auto f = [](int x) { return vf_uf(1, x); };
    CHECK("0 elements", transform(std::tuple{}, f) == std::tuple{});
    CHECK("1 element", transform(std::tuple{ a }, f) == std::tuple{ f(a) });
    CHECK("2 elements", transform(std::tuple{ a, b }, f) == std::tuple{ f(a), f(b) });
    CHECK("3 elements", transform(std::tuple{ a, b, c }, f) == std::tuple{ f(a), f(b), f(c) });
    CHECK("5 elements", transform(std::tuple{ a, b, c, d, a }, f) == std::tuple{ f(a), f(b), f(c), f(d), f(a) });
    CHECK("pair", transform(std::pair{ a, b }, f) == std::tuple{ f(a), f(b) });
    CHECK("array", transform(std::array{ a, b, c }, f) == std::tuple{ f(a), f(b), f(c) });
    const auto t = std::tuple{ a, b };
    auto r = transform(t, f);
    CHECK("the data is not changed", t == std::tuple{ a, b } && r == std::tuple{ f(a), f(b) });
}

HARNESS(types) {
    int a = ANY;
    char c = vf_nondet_i8();
    Point p{ ANY, ANY };
    auto r = transform(std::tuple{ a, c, p }, [](const auto &x) { return x; });
    static_assert(std::is_same_v<decltype(r), std::tuple<int, char, Point>>);
    CHECK("each element keeps its type", r == std::tuple{ a, c, p });
    auto t = std::tuple{ a, a };
    auto v = transform(t, [](const auto &x) -> const auto & { return x; });
    static_assert(std::is_same_v<decltype(v), std::tuple<int, int>>);
    std::get<0>(t) = ANY;
    CHECK("the results are values", v == std::tuple{ a, a });
    auto n = transform(std::tuple{ a }, [](int x) { return std::tuple{ x, 5 }; });
    static_assert(std::tuple_size_v<decltype(n)> == 1);
    CHECK("a single tuple remains a tuple", std::get<0>(n) == std::tuple{ a, 5 });
    auto m = transform(std::tuple{ a }, [](int x) { return std::pair{ x, 'p' }; });
    static_assert(std::tuple_size_v<decltype(m)> == 1);
    CHECK("a single pair remains a pair", std::get<0>(m) == std::pair{ a, 'p' });
    auto k = transform(std::tuple{ std::tuple{ a, 1 }, std::tuple{ 2, a } }, [](const auto &x) { return x; });
    CHECK("tuples remain tuples", k == std::tuple{ std::tuple{ a, 1 }, std::tuple{ 2, a } });
    auto w = transform(std::tuple{ a, a }, [](int x) { return x != 0; });
    static_assert(std::is_same_v<decltype(w), std::tuple<bool, bool>>);
    CHECK("other result types", std::get<0>(w) == (a != 0) && std::get<1>(w) == (a != 0));
}

HARNESS(once) {
    int v[3] = { ANY, ANY, ANY }, n[3] = {}, other = 0;
    auto count = [&](const int &x) { // the element itself, not a copy of it
        int hit = 0;
        for (int i = 0; i < 3; ++i) if (&x == &v[i]) ++n[i], ++hit;
        if (!hit) ++other;
        return x;
    };
    transform(std::tie(v[0], v[1], v[2]), count);
    CHECK("once for each element", n[0] == 1 && n[1] == 1 && n[2] == 1 && other == 0);
    transform(std::tie(v[1]), count);
    CHECK("once for a single element", n[0] == 1 && n[1] == 2 && n[2] == 1 && other == 0);
    int a = v[0], b = v[1];
    Tracked::reset();
    {
        std::tuple<Tracked, Tracked> t{ Tracked{ a }, Tracked{ b } };
        const int copies = Tracked::copies;
        auto r = transform(t, [](const Tracked &x) { return x.valid ? x.v : -1; });
        CHECK("the elements are not copied", Tracked::copies == copies && r == std::tuple{ a, b });
        any(t, [](const Tracked &x) { return x.v == 3; });
        CHECK("the elements are not copied by any", Tracked::copies == copies);
    }
}

HARNESS(exists) {
    int v[5] = { ANY, ANY, ANY, ANY, ANY };
    auto p = [](int x) { return (vf_uf(1, x) & 1) != 0; };
    auto q = [&](int n) { bool r = false; for (int i = 0; i < n; ++i) r = r || p(v[i]); return r; };
    CHECK("none of 0", !any(std::tuple{}, p) && !any(std::tuple{}));
    CHECK("any of 1", any(std::tuple{ v[0] }, p) == q(1));
    CHECK("any of 2", any(std::tuple{ v[0], v[1] }, p) == q(2));
    CHECK("any of 3", any(std::tuple{ v[0], v[1], v[2] }, p) == q(3));
    CHECK("any of 5", any(std::tuple{ v[0], v[1], v[2], v[3], v[4] }, p) == q(5));
    CHECK("any of a pair", any(std::pair{ v[0], v[1] }, p) == q(2));
    CHECK("any of an array", any(std::array{ v[0], v[1], v[2] }, p) == q(3));
    if (q(5)) COVER("some");
    else COVER("none");
}

HARNESS(identity) {
    bool a = vf_nondet_bool(), b = vf_nondet_bool(), c = vf_nondet_bool(), d = vf_nondet_bool();
    CHECK("1 flag", any(std::tuple{ a }) == a);
    CHECK("2 flags", any(std::tuple{ a, b }) == (a || b));
    CHECK("3 flags", any(std::tuple{ a, b, c }) == (a || b || c));
    CHECK("4 flags", any(std::tuple{ a, b, c, d }) == (a || b || c || d));
    CHECK("numbers", any(std::tuple{ int(a), long(b) }) == (a || b));
}

// stops at the first one
HARNESS(short_circuit) {
    int v[4] = { ANY, ANY, ANY, ANY }, n = 0, seen[8];
    const bool r = any(std::tuple{ v[0], v[1], v[2], v[3] }, [&](int x) { if (n < 8) seen[n] = x; ++n; return vf_uf(1, x) > 0; });
    int expected = 0;
    bool found = false;
    while (expected < 4 && !found) found = vf_uf(1, v[expected++]) > 0;
    CHECK("the answer", r == found);
    CHECK("stops at the first one that satisfies it", n == expected);
    for (int i = 0; i < expected && i < n; ++i) CHECK("in order", seen[i] == v[i]);
    if (found && expected < 4) COVER("stopped early");
    if (!found) COVER("all of them");
}
