// BOUNDS: elements and results of 40 types, in compressed_tuple, std::tuple, std::pair and std::array, also as references; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include "pigro/apply.h"

static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    auto test = [&](auto t) {
        const auto &c = t;
        int calls = 0;
        auto body = [&](const T &a, const T &b) { ++calls; return a == sample<T>(k) && b == sample<T>(l); };
        CHECK("each of them", pigro::apply(body, t) && pigro::apply(body, c) && calls == 2);
        const T *first = nullptr, *second = nullptr;
        pigro::apply([&](const T &a, const T &b) { first = &a, second = &b; }, c);
        pigro::apply([&](T &a, T &b) { CHECK("the elements themselves", &a == first && &b == second); }, t);
        CHECK("the result itself", &pigro::apply([](T &a, T &) -> T & { return a; }, t) == first);
        pigro::apply([&](T &&a, T &&b) { CHECK("movable, but not moved", &a == first && &b == second && a == sample<T>(k)); }, std::move(t));
        pigro::apply([&](auto &&a, const T &b) { static_assert(std::is_same_v<decltype(a), const T &&>); CHECK("constant temporaries", &a == first && &b == second); }, std::move(c));
        const T m = pigro::apply([](T &&a, T &&) { return std::move(a); }, std::move(t));
        CHECK("moved out", m == sample<T>(k));
        pigro::apply([&](T &a, T &b) { a = sample<T>(l); b = sample<T>(k); }, t);
        CHECK("written", pigro::apply([&](const T &a, const T &b) { return a == sample<T>(l) && b == sample<T>(k); }, t));
    };
    test(compressed_tuple{ sample<T>(k), sample<T>(l) });
    test(std::tuple{ sample<T>(k), sample<T>(l) });
    test(std::pair{ sample<T>(k), sample<T>(l) });
    test(std::array{ sample<T>(k), sample<T>(l) });
    T x = sample<T>(k);
    const T y = sample<T>(l);
    auto refs = [&](T &a, const T &b) { return &a == &x && &b == &y; };
    CHECK("references", pigro::apply(refs, compressed_tuple<T &, const T &>{ x, y }) && pigro::apply(refs, std::tie(x, y)));
};
