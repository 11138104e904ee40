// BOUNDS: 37 types of elements, each in all of three positions next to values and stateless elements, written in any order; stateless classes of several kinds; all values (8 bits for the classes)
#include "common/tuple_common.h"
#include "common/values.h"

template<typename T>
static void element() {
    make<T>(0);
    const int heap = vf_live_heap();
    {
        unsigned char k[3] = { any_key<T>(), any_key<T>(), any_key<T>() };
        int n = vf_nondet_i32();
        auto t = compressed_tuple{ make<T>(k[0]), n, make<T>(k[1]), Empty{}, make<T>(k[2]), 'c' };
        auto ok = [](auto &t, unsigned char *k, int n) {
            return pigro::get<0>(t) == make<T>(k[0]) && pigro::get<1>(t) == n && pigro::get<2>(t) == make<T>(k[1]) && pigro::get<4>(t) == make<T>(k[2]) && pigro::get<5>(t) == 'c';
        };
        CHECK("each value at its index", ok(t, k, n));
        auto u = t;
        unsigned char l[3] = { k[0], k[1], k[2] };
        switch (vf_pick(4)) {
        case 0: pigro::get<0>(t) = make<T>(k[0] = any_key<T>()); break;
        case 1: pigro::get<2>(t) = make<T>(k[1] = any_key<T>()); break;
        case 2: pigro::get<4>(t) = make<T>(k[2] = any_key<T>()); break;
        default: pigro::get<1>(t) = n = vf_nondet_i32();
        }
        CHECK("only the assigned element changes", ok(t, k, n));
        pigro::get<1>(u) = n;
        CHECK("the copy does not", ok(u, l, n));
        const auto c = std::move(t);
        CHECK("moved", ok(c, k, n));
        auto s = compressed_tuple{ make<T>(k[0]) };
        auto r = s;
        pigro::get<0>(s) = make<T>(k[1]);
        CHECK("a single one", pigro::get<0>(s) == make<T>(k[1]) && pigro::get<0>(r) == make<T>(k[0]) && sizeof(s) == sizeof(T));
        auto v = compressed_tuple<T>{ pigro::get<2>(u) };
        CHECK("made of an element", pigro::get<0>(v) == make<T>(l[1]) && pigro::get<2>(u) == make<T>(l[1]));
    }
    CHECK("nothing is leaked", vf_live_heap() == heap);
    COVER("end");
}
