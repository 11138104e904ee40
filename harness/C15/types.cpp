#include "common/sweep_C15.inc"
HARNESS(scalars) { each<SCALARS>(check); }
HARNESS(classes) { each<CLASSES>(check); }
HARNESS(owners) { each<OWNERS>(check); }

HARNESS(special) {
    const int a = vf_nondet_i32(), x = vf_nondet_i32();
    auto body = [](auto... v) { return vf_uf(1, int(v)...); };
    auto f = bind_back(body, int(a));
    auto g = bind_back(body, pigro::idx<0>, int(a));
    CHECK("integral constants", f(pigro::idx<0>) == vf_uf(1, 0, a) && f(pigro::idx<1>, x) == vf_uf(1, 1, x, a) && g(x) == vf_uf(1, x, 0, a) && g(pigro::idx<1>) == vf_uf(1, 1, 0, a));
    auto n = bind_back([](std::nullptr_t, int v) { return v; }, int(a));
    CHECK("null pointers", n(nullptr) == a);
    auto h = bind_back([](auto f, auto t) { return vf_uf(2, f(1), pigro::get<0>(t)); }, compressed_tuple{ x });
    CHECK("bound functions and tuples", h(f) == vf_uf(2, vf_uf(1, 1, a), x));
}
