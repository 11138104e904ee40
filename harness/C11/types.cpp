#include "common/elements.inc"
HARNESS(t_bool) { element<bool>(); }
HARNESS(t_char) { element<char>(); }
HARNESS(t_short) { element<short>(); }
HARNESS(t_long) { element<long>(); }
HARNESS(t_double) { element<double>(); }
HARNESS(t_point) { element<Point>(); }
HARNESS(t_large) { element<Large>(); }
HARNESS(t_aligned) { element<Aligned>(); }
HARNESS(t_anchored) { element<Anchored>(); }
HARNESS(t_exact) { element<Exact>(); }
HARNESS(t_string) { element<std::string>(); }
HARNESS(t_vector) { element<std::vector<int>>(); }
HARNESS(t_optional) { element<std::optional<int>>(); }
HARNESS(t_shared) { element<std::shared_ptr<int>>(); }
HARNESS(t_text) { element<const char *>(); }
HARNESS(t_pair) { element<std::pair<std::string, int>>(); }

// stateless, but not regular
struct Made { // cannot be default constructed
    explicit Made(int) {}
    Made() = delete;
    int id() const { return 21; }
    bool operator==(const Made &) const { return true; }
};
struct Derived : Empty {
    int id() const { return 22; }
};
static int defaults;
struct Noisy { // its default constructor has effects
    Noisy() { ++defaults; }
    explicit Noisy(int) {}
    int id() const { return 23; }
};
template<int n>
struct Number {
    static constexpr int value = n;
    constexpr operator int() const { return n; }
};
static int plus(int a, int b) { return vf_uf(1, a, b); }
HARNESS(stateless_kinds) {
    int a = vf_nondet_i32();
    defaults = 0;
    auto t = compressed_tuple{ Made{ 1 }, a, Derived{}, Noisy{ 1 }, Number<5>{}, Number<6>{}, std::integral_constant<int, 7>{}, nullptr, [](int x) { return vf_uf(2, x); }, std::plus<>{} };
    CHECK("each of them", pigro::get<0>(t).id() == 21 && pigro::get<1>(t) == a && pigro::get<2>(t).id() == 22 && pigro::get<3>(t).id() == 23);
    CHECK("different types", pigro::get<4>(t) == 5 && pigro::get<5>(t) == 6 && pigro::get<6>(t) == 7 && pigro::get<7>(t) == nullptr);
    CHECK("functions", pigro::get<8>(t)(a) == vf_uf(2, a) && pigro::get<9>(t)(a, 1) == int(unsigned(a) + 1u));
    auto u = t;
    const auto c = std::move(t);
    CHECK("copies", pigro::get<0>(u).id() == 21 && pigro::get<1>(u) == a && pigro::get<3>(u).id() == 23 && pigro::get<4>(u) == 5);
    CHECK("constant", pigro::get<0>(c).id() == 21 && pigro::get<1>(c) == a && pigro::get<3>(c).id() == 23 && pigro::get<5>(c) == 6);
    CHECK("none is constructed anew", defaults == 0);
    auto f = compressed_tuple{ &plus, a, &plus };
    CHECK("function pointers", pigro::get<0>(f)(a, 2) == vf_uf(1, a, 2) && pigro::get<2>(f)(2, a) == vf_uf(1, 2, a));
    auto s = compressed_tuple{ Made{ 1 } };
    CHECK("a single one", pigro::get<0>(s).id() == 21 && sizeof(s) == 1);
}
