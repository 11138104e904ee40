// BOUNDS: captured and forwarded objects of 40 types, named, constant and temporary ones; all values of 8 bits
#include "common/tuple_common.h"
#include "common/sweep.h"

#include "pigro/forward_like.h"
#include "pigro/fwd_capture.h"
#include "pigro/utils.h"

using pigro::access;
using pigro::as_nonconst;
using pigro::forward_like;
using pigro::fwd_capture;
static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>();
    T x = sample<T>(k);
    const T y = sample<T>(l);
    auto a = fwd_capture(x);
    auto b = fwd_capture(y);
    auto c = fwd_capture(sample<T>(k));
    auto d = fwd_capture(std::move(y));
    static_assert(std::is_same_v<decltype(access(a)), T &> && std::is_same_v<decltype(access(b)), const T &> && std::is_same_v<decltype(access(c)), T &> && std::is_same_v<decltype(access(d)), const T &>);
    static_assert(std::is_same_v<decltype(access(std::move(a))), T &> && std::is_same_v<decltype(access(std::move(c))), T &&> && std::is_same_v<decltype(access(std::as_const(c))), const T &>);
    CHECK("named objects are referred to", &access(a) == &x && &access(b) == &y && &access(std::as_const(a)) == &x);
    CHECK("temporaries are owned", access(c) == sample<T>(k) && access(d) == sample<T>(l) && (const void *)&access(d) != (const void *)&y && &access(c) == &access(std::as_const(c)));
    auto e = c;
    access(c) = sample<T>(l);
    CHECK("written", access(c) == sample<T>(l) && access(e) == sample<T>(k));
    access(a) = sample<T>(l);
    CHECK("written through", x == sample<T>(l));
    x = sample<T>(k);
    auto m = fwd_capture(std::move(x));
    CHECK("moved in", access(m) == sample<T>(k));
    T w = access(std::move(m));
    CHECK("moved out", w == sample<T>(k));
    auto &&f = forward_like<int &&>(w);
    auto &g = forward_like<const int &>(w);
    CHECK("forwarded", &f == &w && &g == &w && &forward_like<int &>(w) == &w && w == sample<T>(k));
    static_assert(std::is_same_v<decltype(forward_like<int &&>(w)), T &&> && std::is_same_v<decltype(forward_like<const int &>(w)), const T &> && std::is_same_v<decltype(forward_like<const int &&>(w)), const T &&>);
    auto &&n = as_nonconst(std::move(y));
    static_assert(std::is_same_v<decltype(as_nonconst(y)), T &> && std::is_same_v<decltype(as_nonconst(std::move(y))), T &&>);
    CHECK("without constness", &as_nonconst(y) == &y && &n == &y && y == sample<T>(l) && &as_nonconst(w) == &w);
};
