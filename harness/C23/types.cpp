#include "common/sweep_C23.inc"
HARNESS(scalars) { each<SCALARS>(check); }
HARNESS(classes) { each<CLASSES>(check); }
HARNESS(owners) { each<OWNERS>(check); }

HARNESS(move_only) {
    int a = vf_nondet_i32(), b = vf_nondet_i32(), c = vf_nondet_i32();
    {
        auto f = uncaptured(a) >> [](std::unique_ptr<int> p, int v) { return vf_uf(1, *p, v); };
        CHECK("move-only argument", f(std::make_unique<int>(b)) == vf_uf(1, b, a) && std::as_const(f)(std::make_unique<int>(c)) == vf_uf(1, c, a));
        auto g = uncaptured(a, c) >> [](std::unique_ptr<int> p, int v, int w) { return vf_uf(1, *p, v, w); };
        CHECK("move-only argument, several", g(std::make_unique<int>(b)) == vf_uf(1, b, a, c) && std::as_const(g)(std::make_unique<int>(c)) == vf_uf(1, c, a, c));
        auto h = uncaptured(a, c) >> [](int &r, int v, int w) { r = vf_uf(1, v, w); };
        h(b);
        CHECK("written", b == vf_uf(1, a, c));
    }
    CHECK("released", vf_live_heap() == 0);
}
