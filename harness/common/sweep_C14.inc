// BOUNDS: bound values and callables with state of 40 types, as temporaries and named objects; original, copy and moved ones; all values of 8 bits
#include "common/bind_common.h"
#include "common/sweep.h"

template<typename T>
struct Keeper { // returns its previous value
    T state;
    T operator()(const T &bound, const T &next) {
        T r = state;
        state = next;
        return bound == sample<T>(3) ? r : sample<T>(0);
    }
};
template<typename T>
static auto made(unsigned char k) { return compressed_tuple{ sample<T>(3) } >> Keeper<T>{ sample<T>(k) }; }
template<typename T>
static auto made_back(unsigned char k) { return compressed_tuple{ sample<T>(k) } << [](const T &next, T &state) { T r = state; state = next; return r; }; }

static constexpr auto check = []<typename T>(Each<T>) {
    const unsigned char k = any_key<T>(), l = any_key<T>(), p = any_key<T>();
    auto history = [&](auto f) {
        CHECK("state at first", f(sample<T>(l)) == sample<T>(k));
        auto c = f;
        CHECK("kept by the copy", c(sample<T>(p)) == sample<T>(l));
        CHECK("kept by the original", f(sample<T>(k)) == sample<T>(l));
        CHECK("independently", c(sample<T>(k)) == sample<T>(p) && f(sample<T>(p)) == sample<T>(k));
        auto m = std::move(f);
        CHECK("moved", m(sample<T>(k)) == sample<T>(p));
    };
    history(made<T>(k));
    history(made_back<T>(k));
    Keeper<T> named{ sample<T>(k) };
    auto bound = compressed_tuple{ sample<T>(3) };
    auto f = bound >> named;
    CHECK("a named callable", f(sample<T>(l)) == sample<T>(k) && named.state == sample<T>(l));
    named.state = sample<T>(p);
    auto c = f;
    CHECK("in both directions, also by a copy", c(sample<T>(k)) == sample<T>(p) && named.state == sample<T>(k));
    auto g = bound << [](const T &next, T &state) { T r = state; state = next; return r; };
    CHECK("a named tuple", g(sample<T>(k)) == sample<T>(3) && pigro::get<0>(bound) == sample<T>(k));
    pigro::get<0>(bound) = sample<T>(l);
    CHECK("in both directions", g(sample<T>(p)) == sample<T>(l) && pigro::get<0>(bound) == sample<T>(p));
};
