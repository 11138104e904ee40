// BOUNDS: exceptions of 14 standard types and of classes derived from them, thrown by the function, a function given as dependency or a lazy dependency, at any subset of 3 calls
#include "common/std_errors.h"
#include "common/lazy_common.h"
#include <new>
#include <optional>
#include <typeinfo>
#include <variant>

struct Own : std::exception {
    int code;
    explicit Own(int c) : code{ c } {}
    const char *what() const noexcept override { return "own"; }
};
struct OwnLogic : std::invalid_argument {
    int code;
    explicit OwnLogic(int c) : std::invalid_argument{ "logic" }, code{ c } {}
};
struct OwnRuntime : std::runtime_error {
    int code;
    explicit OwnRuntime(int c) : std::runtime_error{ "runtime" }, code{ c } {}
};

static void raise(unsigned kind, int code) {
    switch (kind) {
    case 0: throw std::exception{};
    case 1: throw std::logic_error{ "a" };
    case 2: throw std::domain_error{ "a" };
    case 3: throw std::invalid_argument{ "a" };
    case 4: throw std::length_error{ "a" };
    case 5: throw std::out_of_range{ "a" };
    case 6: throw std::runtime_error{ "a" };
    case 7: throw std::range_error{ "a" };
    case 8: throw std::overflow_error{ "a" };
    case 9: throw std::underflow_error{ "a" };
    case 10: throw std::bad_alloc{};
    case 11: throw std::bad_cast{};
    case 12: throw std::bad_exception{};
    case 13: throw Own{ code };
    case 14: throw OwnLogic{ code };
    case 15: throw OwnRuntime{ code };
    default: throw std::bad_optional_access{};
    }
}
static constexpr unsigned kinds = 17;

// calls f, and returns what has been thrown
template<typename F>
static int kind_of(F &f, int &value, int code) {
    try {
        value = f();
        return -1;
    }
    catch (const Own &e) { return e.code == code ? 13 : -2; }
    catch (const OwnLogic &e) { return e.code == code && e.what()[0] == 'l' ? 14 : -2; }
    catch (const OwnRuntime &e) { return e.code == code && e.what()[0] == 'r' ? 15 : -2; }
    catch (const std::domain_error &) { return 2; }
    catch (const std::invalid_argument &) { return 3; }
    catch (const std::length_error &) { return 4; }
    catch (const std::out_of_range &) { return 5; }
    catch (const std::logic_error &e) { return e.what()[0] == 'a' ? 1 : -2; }
    catch (const std::range_error &) { return 7; }
    catch (const std::overflow_error &) { return 8; }
    catch (const std::underflow_error &e) { return e.what()[0] == 'a' ? 9 : -2; }
    catch (const std::runtime_error &) { return 6; }
    catch (const std::bad_alloc &) { return 10; }
    catch (const std::bad_cast &) { return 11; }
    catch (const std::bad_exception &) { return 12; }
    catch (const std::bad_optional_access &) { return 16; }
    catch (const std::exception &) { return 0; }
    catch (...) { return -2; }
}

#include "common/throw_kinds.inc"
