// BOUNDS: 12 further types (136 bytes, over-aligned, not default constructible, self-referring, shared_ptr, nested optional, tuple of strings, vector of strings, counted lifetimes) in each of three positions, as value, function and lazy function, and as result; 3 calls
#include "common/typed.h"

// all objects that exist; nothing but those may be used
static int alive, misused;
struct Tracked {
    int v;
    int state = 77;
    explicit Tracked(int v) : v{ v } { ++alive; }
    Tracked(const Tracked &o) : v{ o.get() } { ++alive; }
    Tracked(Tracked &&o) : v{ o.get() } { ++alive; o.v = -1; }
    Tracked &operator=(const Tracked &o) { get(); v = o.get(); return *this; }
    Tracked &operator=(Tracked &&o) { get(); const int w = o.get(); o.v = -1; v = w; return *this; }
    ~Tracked() { get(); state = 0; --alive; }
    int get() const { misused += state != 77; return v; }
    bool operator==(const Tracked &o) const { return get() == o.get(); }
};
using Pair = std::pair<std::string, std::string>;
using Strings = std::vector<std::string>;
using Nested = std::optional<std::optional<int>>;
using Mixed = std::tuple<char, std::string, Point>;
template<typename T>
static T build(unsigned char key) {
    if constexpr (std::is_same_v<T, Pair>) return { make<std::string>(key), make<std::string>(9) };
    else if constexpr (std::is_same_v<T, Strings>) return { make<std::string>(9), make<std::string>(key) };
    else if constexpr (std::is_same_v<T, Nested>) {
        if (key == 0) return T{};
        if (key == 1) return T{ std::in_place };
        return T{ std::optional<int>{ key } };
    } else if constexpr (std::is_same_v<T, Mixed>) return { 'c', make<std::string>(key), Point{ 1, key } };
    else return make<T>(key);
}

template<typename T>
static unsigned char key() {
    if constexpr (std::is_same_v<T, Nested>) return vf_choose(3);
    else return any_key<T>();
}
template<typename T>
static void intact() {
    build<T>(0);
    const int heap = vf_live_heap();
    alive = misused = 0;
    {
        unsigned char a = key<T>(), b = key<T>();
        const unsigned char v = key<T>();
        auto g = lazy([](T x) { return x; }, [&] { return build<T>(a); });
        auto f = lazy([](const T &x, T y, const T &z) {
            return std::tuple<T, int, T, T>{ y, 5, x, z };
        }, build<T>(v), g, [&] { return build<T>(b); });
        for (int i = 0; i < HIST(3); ++i) {
            for (int k = 0; k < 2; ++k) {
                auto r = f();
                CHECK("the lazy function's value is intact", std::get<0>(r) == build<T>(a));
                CHECK("the plain value is intact", std::get<2>(r) == build<T>(v));
                CHECK("the function's value is intact", std::get<3>(r) == build<T>(b));
                std::get<0>(r) = std::get<2>(r); // the result is ours
                std::get<3>(r) = std::get<2>(r);
            }
            if (i) a = key<T>();
            else b = key<T>();
        }
        auto c = f;
        auto d = std::move(f);
        CHECK("in the copy", std::get<0>(c()) == build<T>(a) && std::get<3>(c()) == build<T>(b));
        CHECK("in the moved one", std::get<0>(d()) == build<T>(a) && std::get<3>(d()) == build<T>(b));
    }
    CHECK("used while they exist only", misused == 0);
    CHECK("as many destroyed as created", alive == 0);
    CHECK("nothing is leaked", vf_live_heap() == heap);
    COVER("end");
}
