// BOUNDS: any level of a chain of three, or a function without result, throws at any subset of 3 to 4 calls, with arbitrary changes in between
#include "common/lazy_common.h"

struct Failure {
    int level;
};

HARNESS(chain) {
    int a = vf_nondet_i32();
    unsigned fail = 0;
    auto f1 = lazy([&](int x) { if (fail == 1) throw Failure{ 1 }; return vf_uf(1, x); }, [&] { return a; });
    auto f2 = lazy([&](int x) { if (fail == 2) throw Failure{ 2 }; return vf_uf(2, x); }, f1);
    auto f3 = lazy([&](int x) { if (fail == 3) throw Failure{ 3 }; return vf_uf(3, x); }, f2);
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_pick(4);
        try {
            CHECK("never an outdated value", f3() == vf_uf(3, vf_uf(2, vf_uf(1, a))));
            COVER("value");
        } catch (const Failure &e) {
            CHECK("the exception that has been thrown", e.level == int(fail));
            COVER("exception");
        }
        a = vf_nondet_i32();
    }
}

HARNESS(no_result) {
    int a = vf_nondet_i32(), done = 0;
    bool fail = false;
    auto f = lazy([&](int x) { if (fail) throw Failure{ 1 }; done = x; }, [&] { return a; });
    for (int i = 0; i < HIST(4); ++i) {
        fail = vf_nondet_bool();
        try {
            f();
            CHECK("has completed for the current value", done == a);
            COVER("completed");
        } catch (const Failure &e) {
            CHECK("the exception that has been thrown", fail);
            COVER("exception");
        }
        a = vf_nondet_i32();
    }
}

// called while another exception is being handled, by a destructor
template<typename F>
struct AtExit {
    F &f;
    int &result;
    ~AtExit() { result = f(); }
};
HARNESS(unwinding) {
    int a = vf_nondet_i32(), evals = 0, result = 0;
    auto f = lazy([&](int x) { ++evals; return vf_uf(1, x); }, [&] { return a; });
    Model<int> m;
    for (int i = 0; i < HIST(3); ++i) {
        m.call(a);
        try {
            AtExit<decltype(f)> guard{ f, result };
            if (vf_nondet_bool()) throw Failure{ 1 };
        } catch (const Failure &) {
            COVER("unwinding");
        }
        CHECK("up to date", result == vf_uf(1, a));
        CHECK("another exception does not cause evaluations", evals == m.evaluations);
        a = vf_nondet_i32();
    }
}
