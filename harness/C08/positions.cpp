// BOUNDS: any of 5 dependencies (functions, lazy function) or the function itself throws, at any of 3 calls; exceptions of type int, pointer, a class with a string and a class with a base; two failures in a row
#include "common/lazy_common.h"

static void fail_if(bool c, int code) { if (c) throw code; }

HARNESS(five) {
    int v[5] = { vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32(), vf_nondet_i32() }, e = 0;
    unsigned at = 0;
    auto g = lazy([&](int x) { fail_if(at == 3, 3); return x; }, [&] { return v[2]; });
    auto f = lazy([&](int a, int b, int c, int d, int k) { ++e; fail_if(at == 6, 6); return vf_uf(1, a, b, c, d, k); },
      [&] { fail_if(at == 1, 1); return v[0]; }, [&] { fail_if(at == 2, 2); return v[1]; }, g, [&] { fail_if(at == 4, 4); return v[3]; }, [&] { fail_if(at == 5, 5); return v[4]; });
    const unsigned change = vf_pick(5);
    CHECK("a first value", f() == vf_uf(1, v[0], v[1], v[2], v[3], v[4]));
    bool clean = true;
    for (int i = 0; i < HIST(2); ++i) {
        const int old = v[change], before = e;
        v[change] = vf_nondet_i32();
        at = vf_pick(7);
        try {
            CHECK("never an outdated value", f() == vf_uf(1, v[0], v[1], v[2], v[3], v[4]));
            CHECK("evaluated when needed", e - before == (!clean || v[change] != old));
            CHECK("a failing function is not ignored", at == 0 || at == 3 || at == 6);
            clean = true;
            COVER("value");
        } catch (int code) {
            CHECK("the exception that has been thrown", code == int(at));
            clean = false;
            COVER("exception");
        }
    }
    at = 0;
    const int before = e;
    CHECK("up to date afterwards", f() == vf_uf(1, v[0], v[1], v[2], v[3], v[4]));
    CHECK("evaluated once, if there was a failure", e - before == !clean);
    CHECK("and remembered", f() == vf_uf(1, v[0], v[1], v[2], v[3], v[4]) && e - before == !clean);
}

struct Base {
    virtual ~Base() = default;
    int code = 0;
};
struct Derived : Base {};
struct Text {
    std::string text;
};
HARNESS(kinds) {
    int a = vf_nondet_i32();
    unsigned kind = 0;
    auto f = lazy([&](int x) {
        if (kind == 1) throw Text{ "failed" };
        if (kind == 2) throw 5;
        if (kind == 3) throw Derived{};
        if (kind == 4) throw "text";
        return vf_uf(1, x);
    }, [&] { return a; });
    for (int i = 0; i < HIST(3); ++i) {
        kind = vf_pick(5);
        unsigned got = 0;
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a));
        } catch (const Text &e) {
            CHECK("the same exception", e.text == "failed");
            got = 1;
        } catch (int e) {
            got = e == 5 ? 2 : 9;
        } catch (const Base &e) {
            got = 3;
        } catch (const char *) {
            got = 4;
        }
        CHECK("the exception that has been thrown, if any", got == kind || got == 0);
        if (i == 1) a = vf_nondet_i32();
        if (got) COVER("exception");
        else COVER("value");
    }
}

// fails at the same value over and over again
HARNESS(repeatedly) {
    int a = vf_nondet_i32(), e = 0, failures = 0;
    bool fail = vf_nondet_bool();
    auto g = lazy([&](int x) { return x & 3; }, [&] { return a; });
    auto f = lazy([&](int x) { ++e; if (fail) throw Base{}; return vf_uf(1, x); }, g);
    if (vf_nondet_bool()) fail = false, f(), fail = true;
    a = vf_nondet_i32();
    for (int i = 0; i < HIST(4); ++i) {
        try {
            CHECK("never an outdated value", f() == vf_uf(1, a & 3));
        } catch (const Base &) {
            ++failures;
            if (i > 1) fail = false;
        }
    }
    fail = false;
    CHECK("up to date", f() == vf_uf(1, a & 3));
    const int before = e;
    CHECK("remembered", f() == vf_uf(1, a & 3) && e == before);
    if (failures) COVER("failed");
    else COVER("never failed");
}
