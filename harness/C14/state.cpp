// BOUNDS: callables and bound values that change, `>>` and `<<`, compressed_tuple and std::tuple; any sequence of 4 calls of an original and its copy, made at any time
#include "common/bind_common.h"

static constexpr auto count = [](auto &n, int x) { n = vf_uf(1, n, x); return n; };
static constexpr auto count_back = [](int x, auto &n) { n = vf_uf(1, n, x); return n; };

template<typename F>
static void history(F f, int start) {
    int x = vf_nondet_i32(), fn = start;
    for (unsigned n = vf_pick(3); n; --n) {
        CHECK("state is kept in between calls", f(x) == (fn = vf_uf(1, fn, x)));
        x = vf_nondet_i32();
    }
    auto c = f;
    int cn = fn;
    for (int i = 0; i < HIST(3); ++i) {
        if (vf_nondet_bool()) {
            CHECK("the original has its own state", f(x) == (fn = vf_uf(1, fn, x)));
            COVER("original");
        } else {
            CHECK("the copy has its own state", c(x) == (cn = vf_uf(1, cn, x)));
            COVER("copy");
        }
        x = vf_nondet_i32();
    }
    auto m = std::move(f);
    CHECK("state is moved along", m(x) == vf_uf(1, fn, x));
}
HARNESS(bound_front) { int s = vf_nondet_i32(); history(compressed_tuple{ s } >> count, s); }
HARNESS(bound_back) { int s = vf_nondet_i32(); history(compressed_tuple{ s } << count_back, s); }
HARNESS(bound_std_front) { int s = vf_nondet_i32(); history(std::tuple{ s } >> count, s); }
HARNESS(bound_std_back) { int s = vf_nondet_i32(); history(std::tuple{ s } << count_back, s); }
HARNESS(callable_front) { int s = vf_nondet_i32(); history(compressed_tuple{ 1 } >> [n = s](int, int x) mutable { return n = vf_uf(1, n, x); }, s); }
HARNESS(callable_back) { int s = vf_nondet_i32(); history(compressed_tuple{ 1 } << [n = s](int x, int) mutable { return n = vf_uf(1, n, x); }, s); }
HARNESS(callable_stateless_args) { int s = vf_nondet_i32(); history(compressed_tuple{ Empty{} } >> [n = s](Empty, int x) mutable { return n = vf_uf(1, n, x); }, s); }
