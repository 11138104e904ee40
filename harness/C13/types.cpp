#include "common/sweep_C13.inc"
HARNESS(scalars) { each<SCALARS>(check); }
HARNESS(classes) { each<CLASSES>(check); }
HARNESS(owners) { each<OWNERS>(check); }

// arguments of the library's own types, and the like
HARNESS(special) {
    const int a = vf_nondet_i32(), x = vf_nondet_i32();
    auto body = [](auto... v) { return vf_uf(1, int(v)...); };
    auto f = compressed_tuple{ a } >> body;
    auto g = compressed_tuple{ a } << body;
    CHECK("integral constants", f(pigro::idx<0>) == vf_uf(1, a, 0) && f(pigro::idx<1>) == vf_uf(1, a, 1) && f(pigro::idx<2>) == vf_uf(1, a, 2) && f(std::integral_constant<int, 0>{}) == vf_uf(1, a, 0));
    CHECK("integral constants, back", g(pigro::idx<0>) == vf_uf(1, 0, a) && g(pigro::idx<1>) == vf_uf(1, 1, a) && g(std::true_type{}) == vf_uf(1, 1, a));
    CHECK("several integral constants", f(pigro::idx<0>, pigro::idx<1>) == vf_uf(1, a, 0, 1) && g(pigro::idx<1>, x) == vf_uf(1, 1, x, a));
    auto b = compressed_tuple{ pigro::idx<1>, a, pigro::idx<0> } >> body;
    auto c = compressed_tuple{ pigro::idx<1>, a, pigro::idx<0> } << body;
    CHECK("bound integral constants", b() == vf_uf(1, 1, a, 0) && b(x) == vf_uf(1, 1, a, 0, x) && c(x) == vf_uf(1, x, 1, a, 0) && c(pigro::idx<0>) == vf_uf(1, 0, 1, a, 0));
    auto n = compressed_tuple{ a } >> [](int v, std::nullptr_t) { return v; };
    auto m = compressed_tuple{ nullptr } << [](int v, std::nullptr_t) { return v; };
    CHECK("null pointers", n(nullptr) == a && m(x) == x);
    auto t = compressed_tuple{ compressed_tuple{ a, 2 }, 1 } >> [](auto &t, int, auto u) { return vf_uf(1, pigro::get<0>(t), pigro::get<1>(u)); };
    CHECK("tuples", t(compressed_tuple{ 1, x }) == vf_uf(1, a, x));
    auto h = compressed_tuple{ f } >> [](auto &f, auto g) { return vf_uf(2, f(1), g(2)); };
    CHECK("bound functions", h(g) == vf_uf(2, vf_uf(1, a, 1), vf_uf(1, 2, a)));
}
