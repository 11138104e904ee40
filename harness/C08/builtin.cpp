// BOUNDS: exceptions of 14 types that are not derived from std::exception (numbers, enumerations, pointers, strings, empty, large, derived and polymorphic classes), thrown by the function, a function given as dependency or a lazy dependency, at any subset of 3 calls
#include "common/lazy_common.h"

enum class Reason : short { some = 5 };
enum Old { old_reason = 6 };
struct Nothing {};
struct Big {
    int v[40];
};
struct Base {
    virtual ~Base() = default;
    virtual int code() const { return 0; }
};
struct Derived : Base {
    int c;
    explicit Derived(int c) : c{ c } {}
    int code() const override { return c; }
};
struct Plain {
    int c;
};
struct Second {
    int other = 1;
};
struct Both : Second, Plain {
    explicit Both(int c) : Plain{ c } {}
};
static int target;

static void raise(unsigned kind, int code) {
    switch (kind) {
    case 0: throw code;
    case 1: throw long(code);
    case 2: throw char('x');
    case 3: throw double(1.5);
    case 4: throw "text";
    case 5: throw &target;
    case 6: throw Reason::some;
    case 7: throw old_reason;
    case 8: throw Nothing{};
    case 9: throw Big{ { code } };
    case 10: throw Derived{ code };
    case 11: throw Both{ code };
    case 12: throw true;
    default: throw std::string(20, 's');
    }
}
static constexpr unsigned kinds = 14;

template<typename F>
static int kind_of(F &f, int &value, int code) {
    try {
        value = f();
        return -1;
    }
    catch (int e) { return e == code ? 0 : -2; }
    catch (long e) { return e == code ? 1 : -2; }
    catch (char e) { return e == 'x' ? 2 : -2; }
    catch (double e) { return e == 1.5 ? 3 : -2; }
    catch (const char *e) { return e[0] == 't' ? 4 : -2; }
    catch (const int *e) { return e == &target ? 5 : -2; }
    catch (Reason e) { return e == Reason::some ? 6 : -2; }
    catch (Old e) { return e == old_reason ? 7 : -2; }
    catch (Nothing) { return 8; }
    catch (const Big &e) { return e.v[0] == code && e.v[39] == 0 ? 9 : -2; }
    catch (const Base &e) { return e.code() == code ? 10 : -2; }
    catch (const Plain &e) { return e.c == code ? 11 : -2; }
    catch (bool e) { return e ? 12 : -2; }
    catch (const std::string &e) { return e.size() == 20 && e[0] == 's' ? 13 : -2; }
    catch (...) { return -2; }
}

#include "common/throw_kinds.inc"
