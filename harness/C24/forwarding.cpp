// BOUNDS: forward_like, as_nonconst, fwd_capture and access for all combinations of constness and value category; all values
#include "common/tuple_common.h"

#include "pigro/forward_like.h"
#include "pigro/fwd_capture.h"
#include "pigro/utils.h"

using pigro::access;
using pigro::as_nonconst;
using pigro::forward_like;
using pigro::fwd_capture;
#define ANY vf_nondet_i32()

HARNESS(like) {
    int v = ANY;
    static_assert(std::is_same_v<decltype(forward_like<char &>(v)), int &>);
    static_assert(std::is_same_v<decltype(forward_like<char &&>(v)), int &&>);
    static_assert(std::is_same_v<decltype(forward_like<char>(v)), int &&>);
    static_assert(std::is_same_v<decltype(forward_like<const char &>(v)), const int &>);
    static_assert(std::is_same_v<decltype(forward_like<const char &&>(v)), const int &&>);
    auto &l = forward_like<char &>(v);
    auto &&r = forward_like<char &&>(v);
    auto &k = forward_like<const char &>(v);
    auto &&kr = forward_like<const char &&>(v);
    CHECK("the same object", &l == &v && &r == &v && &k == &v && &kr == &v);
    l = ANY;
    CHECK("assigned through", v == l && k == v);
    Tracked::reset();
    {
        Tracked t{ v };
        forward_like<char &&>(t);
        CHECK("nothing is moved by itself", t.valid && Tracked::moves == 0 && Tracked::copies == 0);
        Tracked m{ forward_like<char &&>(t) };
        CHECK("moved from a temporary", !t.valid && m.v == v && Tracked::moves == 1);
        Tracked c{ forward_like<char &>(m) };
        CHECK("copied from an lvalue", m.valid && c.v == v && Tracked::copies == 1);
        Tracked d{ forward_like<const char &&>(m) };
        CHECK("copied from a constant", m.valid && d.v == v && Tracked::copies == 2);
    }
    CHECK("destroyed", Tracked::alive == 0);
}

HARNESS(nonconst) {
    int v = ANY, w = ANY;
    const int &k = v;
    static_assert(std::is_same_v<decltype(as_nonconst(k)), int &>);
    static_assert(std::is_same_v<decltype(as_nonconst(v)), int &>);
    static_assert(std::is_same_v<decltype(as_nonconst(std::move(v))), int &&>);
    CHECK("the same object", &as_nonconst(k) == &v && &as_nonconst(v) == &v);
    as_nonconst(k) = w;
    CHECK("assigned through", v == w && k == w);
    auto &&r = as_nonconst(std::move(k));
    CHECK("the same object, as a temporary", &r == &v);
}

HARNESS(capture) {
    int x = ANY, v = ANY;
    const int x0 = x;
    auto byref = fwd_capture(x);
    auto byval = fwd_capture(int(x));
    CHECK("named values are referred to", &access(byref) == &x);
    CHECK("temporaries are kept", access(byval) == x);
    x = v;
    CHECK("changes", access(byref) == v && access(byval) == x0);
    access(byref) = x0;
    CHECK("changed through the capture", x == x0);
    access(byval) = v;
    auto copy = byval;
    access(copy) = 1;
    CHECK("copies are independent", access(byval) == v && access(copy) == 1);
    const auto &k = byval;
    static_assert(std::is_same_v<decltype(access(byval)), int &>);
    static_assert(std::is_same_v<decltype(access(k)), const int &>);
    static_assert(std::is_same_v<decltype(access(std::move(byval))), int &&>);
    static_assert(std::is_same_v<decltype(access(std::move(byref))), int &>);
    CHECK("the same object", &access(k) == &access(byval));
    auto f = [c = FWD_CAPTURE(std::move(x))]() mutable -> int & { return access(c); };
    (void)f;
}
using pigro::fwd_capture;
template<typename T>
static auto captured(T &&t) { return [c = pigro::FWD_CAPTURE(t)]() mutable -> decltype(auto) { return access(c); }; }
HARNESS(captured_objects) {
    Tracked::reset();
    int a = ANY;
    {
        Tracked t{ a };
        auto f = captured(t);
        CHECK("by reference, without copies", &f() == &t && Tracked::copies == 0);
        auto g = captured(std::move(t));
        CHECK("by value, moved", g().v == a && g().valid && !t.valid && Tracked::copies == 0);
        auto h = captured(std::make_unique<int>(a));
        auto m = std::move(h);
        CHECK("move-only", *m() == a);
    }
    CHECK("destroyed", Tracked::alive == 0);
    CHECK("released", vf_live_heap() == 0);
}

// named constants are referred to as well
HARNESS(constants) {
    int x = ANY, v = ANY;
    const int &k = x;
    auto c = fwd_capture(k);
    static_assert(std::is_same_v<decltype(access(c)), const int &>);
    CHECK("named constants are referred to", &access(c) == &x);
    x = v;
    CHECK("and followed", access(c) == v);
    const int y = ANY;
    auto d = fwd_capture(std::move(y));
    CHECK("constant temporaries are kept", access(d) == y && (const void *)&access(d) != &y);
    static_assert(std::is_same_v<decltype(access(d)), const int &>);
    static_assert(std::is_same_v<decltype(access(fwd_capture(std::move(y)))), const int &&>);
    const auto e = fwd_capture(x);
    access(e) = y;
    CHECK("a constant capture refers to the same object", &access(e) == &x && x == y);
    auto copy = c;
    CHECK("copies refer to the same object", &access(copy) == &x);
    Tracked::reset();
    {
        const Tracked t{ v };
        auto f = captured(t);
        CHECK("constant objects, without copies", &f() == &t && Tracked::copies == 0 && Tracked::moves == 0);
        auto r = captured(f);
        CHECK("through another one", &r()() == &t && Tracked::copies == 0);
        auto s = captured(std::string("abc"));
        CHECK("strings", s() == "abc");
    }
    CHECK("destroyed, constants", Tracked::alive == 0);
}

// every combination: like a From, forwarding a To
template<typename Like, typename Expected, typename T>
static bool forwards(T &&t) {
    static_assert(std::is_same_v<decltype(forward_like<Like>(std::forward<T>(t))), Expected>);
    auto &&r = forward_like<Like>(std::forward<T>(t));
    return (const volatile void *)&r == (const volatile void *)&t;
}
HARNESS(combinations) {
    int v = ANY;
    const int k = ANY;
    CHECK("like a value", forwards<Point, int &&>(v));
    CHECK("like an lvalue", forwards<Point &, int &>(v));
    CHECK("like a temporary", forwards<Point &&, int &&>(v) && forwards<Point &&, int &&>(std::move(v)));
    CHECK("like a constant", forwards<const Point &, const int &>(v) && forwards<const Point &, const int &>(k));
    CHECK("like a constant temporary", forwards<const Point &&, const int &&>(v) && forwards<const Point &&, const int &&>(k) && forwards<const Point &&, const int &&>(std::move(k)));
    CHECK("like a constant value", forwards<const Point, const int &&>(v) && forwards<const Point, const int &&>(k));
    CHECK("like a volatile", forwards<volatile Point &, volatile int &>(v) && forwards<const volatile Point &, const volatile int &>(v));
    static_assert(std::is_same_v<decltype(as_nonconst(std::move(k))), int &&>);
    Point p{ v, v };
    const Point &q = p;
    as_nonconst(q).y = k;
    CHECK("removing constness of a member's object", p.x == v && p.y == k && &as_nonconst(q) == &p);
}
