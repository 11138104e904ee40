// BOUNDS: functions with state, arguments and results of 40 types, next to others; original and copy; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include "pigro/overload.h"

using pigro::overload;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    const int a = vf_nondet_i32();
    auto f = overload{
        [n = sample<T>(k)](Empty, const T &v) mutable { T r = n; n = v; return r; },
        [](Empty) { return 5; },
        [n = sample<T>(l)](Empty2) -> const T & { return n; },
        [](Empty2, T &v) -> T & { return v; },
        [](Empty2, T &&v) { return std::move(v); },
        [n = a](Tracked &) mutable { return n = vf_uf(1, n); },
    };
    auto c = f;
    T x = sample<T>(l);
    Tracked t{ 1 };
    CHECK("state", f(Empty{}, x) == sample<T>(k) && f(Empty{}, sample<T>(k)) == sample<T>(l));
    CHECK("state of a copy", c(Empty{}, x) == sample<T>(k) && c(Empty{}, x) == sample<T>(l));
    CHECK("constant state", f(Empty2{}) == sample<T>(l) && c(Empty2{}) == sample<T>(l) && &f(Empty2{}) == &f(Empty2{}) && &f(Empty2{}) != &c(Empty2{}));
    CHECK("the argument and the result themselves", &f(Empty2{}, x) == &x);
    CHECK("the others", f(Empty{}) == 5 && f(t) == vf_uf(1, a) && f(t) == vf_uf(1, vf_uf(1, a)) && c(t) == vf_uf(1, a));
    const T m = f(Empty2{}, std::move(x));
    CHECK("moved", m == sample<T>(l));
    auto w = std::move(f);
    CHECK("moved along", w(Empty{}, m) == sample<T>(k) && w(Empty2{}) == sample<T>(l));
};
