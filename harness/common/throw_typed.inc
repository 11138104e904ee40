// BOUNDS: results and dependencies of 30 types (numbers to 136 bytes, over-aligned, self-referring, string, vector), of which the source, an inner or the outer function throws at any of 3 calls; evaluations counted
#include "common/typed.h"

struct Failure {
    int at;
};

// What is left after a failure: nothing that has been told to others. A level
// that did complete before another one failed may or may not be evaluated again.
template<typename T>
static void fails() {
    unsigned char a = any_key<T>(), b = any_key<T>();
    unsigned fail = 0;
    int e1 = 0, e2 = 0;
    const int heap = vf_live_heap();
    {
        auto g = lazy([&](const T &x) { ++e1; if (fail == 2) throw Failure{ 2 }; return x; }, [&] { if (fail == 1) throw Failure{ 1 }; return make<T>(a); });
        auto f = lazy([&](const T &x, const T &y) { ++e2; if (fail == 3) throw Failure{ 3 }; return std::pair<T, T>{ x, y }; }, g, [&] { return make<T>(b); });
        bool clean = false; // the last call has succeeded
        unsigned char la = 0, lb = 0;
        for (int i = 0; i < HIST(3); ++i) {
            fail = vf_pick(4);
            const int d1 = e1, d2 = e2;
            bool thrown = false;
            try {
                auto r = f();
                CHECK("never an outdated value", r.first == make<T>(a) && r.second == make<T>(b));
            } catch (const Failure &e) {
                thrown = true;
                CHECK("the exception that has been thrown", e.at == int(fail));
            }
            CHECK("a failing source is not ignored", fail != 1 || thrown);
            CHECK("at most one evaluation", e1 - d1 <= 1 && e2 - d2 <= 1);
            CHECK("an exception only from an evaluation", !thrown || fail == 1 || (fail == 2 ? e1 - d1 : e2 - d2) == 1);
            if (clean && !thrown) CHECK("remembered as usual", e1 - d1 == (a != la) && e2 - d2 == (a != la || b != lb));
            if (!clean && !thrown) CHECK("a failed evaluation is not remembered", e2 - d2 == 1);
            if (thrown) COVER("exception");
            else COVER("value");
            clean = !thrown;
            la = a, lb = b;
            if (i == 0) a = any_key<T>();
            else b = any_key<T>();
        }
    }
    CHECK("nothing is leaked", vf_live_heap() == heap);
}
