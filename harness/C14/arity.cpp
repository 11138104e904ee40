// BOUNDS: 0 to 6, 8, 9, 12 and 17 bound values and 0 to 4 arguments, all of which are changed by each call along with the callable's own state (1, 8 and 84 bytes), by named functions, copies and moved ones; all values
#include "common/bind_common.h"
#include "common/arity.h"

// changes its own state, and those arguments that are bound
template<size_t room>
struct Room {
    int n;
    int more[room] = {};
};
template<>
struct Room<0> {
    signed char n;
};
template<size_t first, size_t bound, size_t room>
struct Changing : Room<room> {
    using State = decltype(Room<room>::n);
    template<typename... Args>
    int operator()(Args &&...a) {
        size_t i = 0;
        auto change = [&](auto &v) {
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(v)>>)
                if (i >= first && i < first + bound) v = vf_uf(2, v, this->n);
            ++i;
        };
        this->n = State(vf_uf(1, this->n, a...));
        (change(a), ...);
        return this->n;
    }
};
template<size_t n, typename State>
struct Expected { // the same, on the values
    State state;
    int w[n + 1];
    template<size_t... I, typename... X>
    int front(std::index_sequence<I...>, X... x) {
        state = State(vf_uf(1, state, w[I]..., x...));
        ((w[I] = vf_uf(2, w[I], state)), ...);
        return state;
    }
    template<size_t... I, typename... X>
    int back(std::index_sequence<I...>, X... x) {
        state = State(vf_uf(1, state, x..., w[I]...));
        ((w[I] = vf_uf(2, w[I], state)), ...);
        return state;
    }
};
template<bool front, size_t room, bool standard>
static void sizes() {
    for_sizes_and<0, 6, 8, 9, 12, 17>([]<size_t... I>(std::index_sequence<I...> all) {
        constexpr size_t n = sizeof...(I);
        const auto start = decltype(Room<room>::n)(vf_nondet_i32());
        Values<n> b;
        Values<4> x;
        for_sizes<0, 4>([&]<size_t... J>(std::index_sequence<J...>) {
            constexpr size_t k = sizeof...(J);
            using Model = Expected<n, decltype(Room<room>::n)>;
            Model e{ start, { b[I]... } };
            auto call = [&](auto &&f, Model &m) {
                if constexpr (front) return f(x[J]...) == m.front(all, x[J]...);
                else return f(x[J]...) == m.back(all, x[J]...);
            };
            auto check = [&](auto f) {
                CHECK("the first call", call(f, e));
                CHECK("what has been changed is kept", call(f, e));
                auto c = f;
                auto ce = e;
                CHECK("a copy continues", call(c, ce));
                CHECK("the original as well", call(f, e));
                auto m = std::move(c);
                CHECK("moved, in turn", call(m, ce) && call(m, ce));
                CHECK("not affected by others", call(f, e));
            };
            if constexpr (front && standard) check(std::tuple{ b[I]... } >> Changing<0, n, room>{ { start } });
            else if constexpr (front) check(compressed_tuple{ b[I]... } >> Changing<0, n, room>{ { start } });
            else if constexpr (standard) check(std::tuple{ b[I]... } << Changing<k, n, room>{ { start } });
            else check(compressed_tuple{ b[I]... } << Changing<k, n, room>{ { start } });
        });
    });
    COVER("end");
}
HARNESS(front_small) { sizes<true, 1, false>(); }
HARNESS(front_large) { sizes<true, 20, true>(); }
HARNESS(back_small) { sizes<false, 1, true>(); }
HARNESS(back_large) { sizes<false, 20, false>(); }
HARNESS(front_byte) { sizes<true, 0, false>(); }
HARNESS(front_byte_std) { sizes<true, 0, true>(); }
HARNESS(back_byte) { sizes<false, 0, true>(); }
