// BOUNDS: 1 to 6 dependencies (functions and lazy functions in turn) and results of a type of which any copy, or comparison, throws; 3 calls with arbitrary changes
#include "common/lazy_common.h"

struct Failure {};
static int countdown, heap_start;
static void step() {
    if (countdown && !--countdown) throw Failure{};
}
struct Fragile {
    int v;
    explicit Fragile(int v) : v{ v } {}
    Fragile(const Fragile &o) : v{ o.v } { step(); }
    Fragile &operator=(const Fragile &o) { step(); v = o.v; return *this; }
    bool operator==(const Fragile &o) const { step(); return v == o.v; }
};
template<size_t I>
static auto source(const int *v) {
    if constexpr (I % 3 == 1) return lazy([](int x) { return Fragile{ x }; }, [v] { return v[I]; });
    else return [v] { return Fragile{ v[I] }; };
}
template<size_t... I>
static void copying(std::index_sequence<I...>) {
    constexpr size_t k = sizeof...(I);
    int v[k] = { (int(I), vf_nondet_i32())... };
    countdown = 0;
    const int heap = vf_live_heap();
    {
        auto f = lazy([](const auto &...x) { return Fragile{ vf_uf(1, x.v...) }; }, source<I>(v)...);
        // the number of copies and comparisons so far is not promised
        const unsigned p = vf_pick(k);
        for (int i = 0; i < BOUND(2, 3); ++i) {
            countdown = vf_pick(14) * ((k + 1) / 2);
            const int armed = countdown;
            try {
                auto r = f();
                countdown = 0;
                CHECK("up to date", r.v == vf_uf(1, v[I]...));
                COVER("value");
            } catch (Failure) {
                CHECK("only if it has been asked to", armed > 0 && countdown == 0);
                COVER("exception");
            }
            countdown = 0;
            if (i == 0) v[p] = vf_nondet_i32();
        }
        CHECK("up to date afterwards", f().v == vf_uf(1, v[I]...));
    }
    CHECK("nothing is leaked", vf_live_heap() == heap);
}
HARNESS(one) { copying(std::make_index_sequence<1>{}); }
HARNESS(two) { copying(std::make_index_sequence<2>{}); }
HARNESS(four) { copying(std::make_index_sequence<4>{}); }
HARNESS(six) { copying(std::make_index_sequence<6>{}); }
