// BOUNDS: functions of 1 to 9 arguments that keep state of 1 byte to 72 bytes or on the heap, as lambdas and function objects, with values, functions (with state) and lazy functions in turn; any subset changes in between 3 calls
#include "common/lazy_common.h"

static int asked, evaluated[9];
template<size_t I>
static auto source(int *v) {
    if constexpr (I % 4 == 1) return int(v[I]);
    else if constexpr (I % 4 == 2) return lazy([c = 0](int x) mutable {
        CHECK("an inner function keeps its state", c++ == evaluated[I]++);
        return x;
    }, [v] { return v[I]; });
    else if constexpr (I) return [v, c = char(0)]() mutable {
        CHECK("a dependency keeps its state", c++ == asked);
        return v[I];
    };
    else return [v, c = 0]() mutable { return v[I] + c++; }; // differs each time, unless that is made up for
}
struct Sum {
    int calls = 0, sum = 0;
    int operator()(const auto &...x) {
        ++calls;
        return sum += vf_uf(1, x...);
    }
};
template<typename State, size_t... I>
static void state_many(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... };
    const int start = vf_nondet_i8();
    auto f = [&] {
        if constexpr (std::is_same_v<State, Sum>) return lazy(Sum{ 0, start }, source<I>(v)...);
        else if constexpr (std::is_same_v<State, std::vector<int>>) return lazy([s = State{ start }](const auto &...x) mutable {
            s.push_back(s.back() + vf_uf(1, x...));
            return s.back();
        }, source<I>(v)...);
        else return lazy([s = State(start)](const auto &...x) mutable { s = State(s + vf_uf(1, x...)); return int(s); }, source<I>(v)...);
    }();
    asked = 0;
    for (int &n : evaluated) n = 0;
    std::conditional_t<std::is_integral_v<State>, State, int> sum(start);
    int last[k], now[k];
    const unsigned p = vf_pick(k), q = (p + 3) % k;
    for (int i = 0; i < HIST(3); ++i) {
        ((now[I] = v[I] + (I ? 0 : i)), ...);
        bool same = i > 0;
        for (size_t j = 0; j < k; ++j) same = same && now[j] == last[j];
        if (!same) sum = decltype(sum)(sum + vf_uf(1, now[I]...));
        CHECK("the function continues where it has been", f() == int(sum));
        ++asked;
        ((last[I] = now[I]), ...);
        if (p % 4 != 1) v[p] = vf_nondet_i32();
        if (q % 4 != 1) v[q] = vf_nondet_i32();
        if (same) COVER("same");
        else if (i) COVER("changed");
    }
}
